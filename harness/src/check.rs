//! Executes one call on the ledger under the step oracle and reports every
//! deviation as a violation of the properties concerned.
use crate::{ix::*, keys::*, spec::*, state::*, svm::*};
use solana_sdk::{account::{AccountSharedData, ReadableAccount}, pubkey, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub const FEE: Pubkey = pubkey!("FeePayer11111111111111111111111111111111111");

#[derive(Clone, Debug)]
pub struct Violation {
    pub tags: Vec<&'static str>,
    pub what: String,
}

pub struct Verdict {
    pub rej: Vec<(Tags, String)>,
    pub exp: BTreeMap<Pubkey, St>,
    pub lam: BTreeMap<Pubkey, u64>,
    pub floor: BTreeMap<Pubkey, u64>,
    pub free: HashSet<Pubkey>,
    pub either: bool,
    pub ret: Option<Vec<u8>>,
    pub hook: Option<u64>,
    pub cpi: Option<(Pubkey, Vec<solana_sdk::instruction::AccountMeta>, Vec<u8>)>,
    pub valid: Vec<&'static str>,
    pub noop: bool,
    pub fee_or_hook: bool,
    pub moved: u64,
    pub class: &'static str,
}

pub fn verdict(pre: &Svm, call: &Call) -> Verdict {
    let v = spec(pre, call);
    Verdict {
        rej: v.rej,
        exp: v.exp,
        lam: v.lam,
        floor: v.floor,
        free: v.free,
        either: v.either,
        ret: v.ret,
        hook: v.hook,
        cpi: v.cpi,
        valid: v.valid,
        noop: v.noop,
        fee_or_hook: v.fee_or_hook,
        moved: v.moved,
        class: v.class,
    }
}

pub struct Step {
    pub ok: bool,
    pub err: String,
    pub verdict: Verdict,
    pub violations: Vec<Violation>,
    pub pre: BTreeMap<Pubkey, AccountSharedData>,
    pub trace: Vec<Invocation>,
}

/// Properties an operation is evidence for (its observed effects).
pub fn op_props(op: &Op) -> Vec<&'static str> {
    match op {
        Op::Init { .. } => vec!["C22"],
        Op::Transfer { .. } => vec!["C01", "C04", "C08", "C10", "C11", "C15", "C16", "C17", "C20", "C25", "C32", "C13"],
        Op::Redeem => vec!["C02", "C06", "C07", "C09", "C10", "C11", "C16", "C17", "C20", "C23", "C32"],
        Op::ReleaseIn { .. } => vec!["C02", "C03", "C04", "C12", "C16", "C17", "C23", "C25"],
        Op::ReleaseOut { .. } => vec!["C12", "C13", "C14", "C16", "C17", "C24"],
        Op::Mark => vec!["C24", "C13", "C16", "C17"],
        Op::Receive { .. } => vec!["C05", "C16", "C17", "C19", "C32"],
        Op::SetXPeer { .. } => vec!["C17", "C32"],
        Op::BcId { .. } => vec!["C26", "C17"],
        Op::BcPeer { .. } => vec!["C26", "C17", "C32"],
        Op::SetPeer { .. } => vec!["C17", "C32", "C16", "C10"],
        Op::Register => vec!["C21", "C17"],
        Op::SetOut { .. } => vec!["C10", "C17", "C16"],
        Op::SetIn { .. } => vec!["C10", "C17", "C16", "C32"],
        Op::Pause(_) => vec!["C16", "C17"],
        Op::TransferOwn | Op::TransferOwn1 | Op::Claim => vec!["C18", "C17"],
        Op::InitLut { .. } => vec!["C27", "C17"],
        Op::QReq { .. } => vec!["C28"],
        Op::Gov => vec!["C30", "C31"],
        _ => vec!["C29"],
    }
}

/// Which properties a wrong value in `field` of an account of `kind` after `op` violates.
fn diff_tags(op: &Op, noop: bool, fh: bool, kind: &str, field: &str) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = vec![];
    if kind == "config" {
        t.push("C17");
    }
    match op {
        Op::Init { .. } => t = vec!["C22"],
        Op::Transfer { .. } => match (kind, field) {
            ("tok", "amount") => t.extend(["C01", "C04", "C15"]),
            ("tok", _) => t.extend(["C15", "C01"]),
            ("mint", _) => t.extend(["C01", "C04"]),
            ("outbox", "amount") => t.extend(["C01", "C20", "C04", "C14"]),
            ("outbox", "release") => t.extend(["C08", "C12"]),
            ("outbox", "released") => t.extend(["C13", "C24"]),
            ("outbox", "chain") | ("outbox", "manager") => t.extend(["C01", "C14", "C32"]),
            ("outbox", _) => t.extend(["C01", "C14"]),
            ("orl", _) => t.extend(["C08", "C10", "C11"]),
            ("irl", _) => t.extend(["C11", "C10", "C32"]),
            ("counter", _) => t.push("C25"),
            ("config", _) => {}
            _ => t.extend(["C17", "C01"]),
        },
        Op::Redeem => match (kind, field) {
            ("inbox", "amount") => t.extend(["C23", "C03", "C20"]),
            ("inbox", "recipient") => t.extend(["C23", "C03"]),
            ("inbox", "votes") => t.extend(["C07", "C23"]),
            ("inbox", "status") => t.extend(["C02", "C07", "C09", "C12", "C23"]),
            ("inbox", _) => t.extend(["C07", "C23"]),
            ("irl", _) => t.extend(["C09", "C10", "C11", "C32"]),
            ("orl", _) => t.extend(["C11", "C10", "C09"]),
            ("tok", _) | ("mint", _) => t.extend(["C02", "C03", "C04"]),
            ("config", _) => {}
            _ => t.extend(["C06", "C17"]),
        },
        Op::ReleaseIn { .. } => match (kind, field) {
            ("inbox", "status") => t.extend(["C02", "C23", "C12"]),
            ("inbox", _) => t.extend(["C23", "C03"]),
            ("tok", _) | ("mint", _) if noop => t.extend(["C12", "C02", "C03", "C04"]),
            ("tok", _) | ("mint", _) => t.extend(["C03", "C04"]),
            ("counter", _) => t.push("C25"),
            ("orl", _) | ("irl", _) => t.extend(["C09", "C10", "C11"]),
            ("config", _) => {}
            _ => t.extend(["C03", "C17"]),
        },
        Op::ReleaseOut { .. } => match (kind, field) {
            ("outbox", "released") => t.extend(["C13", "C24", "C12"]),
            ("outbox", _) => t.extend(["C13", "C14"]),
            ("posted", _) if noop => t.extend(["C12", "C13"]),
            ("posted", _) | ("seq", _) => t.extend(["C14", "C13"]),
            ("config", _) => {}
            _ => t.extend(["C14"]),
        },
        Op::Mark => t.extend(["C24", "C13"]),
        Op::Receive { .. } => {
            t.push("C05");
            if field == "from_chain" {
                t.push("C32");
            }
            if kind == "vtm" {
                t.push("C19");
            }
        }
        Op::SetXPeer { .. } => t.extend(["C17", "C32"]),
        Op::BcId { .. } | Op::BcPeer { .. } => t.extend(["C26"]),
        Op::SetPeer { .. } => {
            t.extend(["C17", "C32"]);
            if kind == "irl" {
                t.push("C10");
            }
        }
        Op::Register => t.extend(["C21", "C17"]),
        Op::SetOut { .. } => t.extend(["C10", "C17"]),
        Op::SetIn { .. } => t.extend(["C10", "C17", "C32"]),
        Op::Pause(_) => t.extend(["C16", "C17"]),
        Op::TransferOwn | Op::TransferOwn1 | Op::Claim => t.extend(["C18", "C17"]),
        Op::InitLut { .. } => t.push("C27"),
        Op::QReq { .. } => t.push("C28"),
        Op::Gov => t.extend(["C30", "C31"]),
        Op::QParams { .. } | Op::QPrices { .. } | Op::QSol { .. } | Op::QNtt { .. } | Op::QChain { .. } => t.extend(["C29", "C28"]),
        _ => t.push("C29"),
    }
    if fh {
        t.push("C25");
    }
    t
}

fn uniq(v: Vec<&'static str>) -> Vec<&'static str> {
    v.into_iter().collect::<BTreeSet<_>>().into_iter().collect()
}

pub fn hook_execute_disc() -> [u8; 8] {
    solana_sdk::hash::hash(b"spl-transfer-hook-interface:execute").to_bytes()[..8].try_into().unwrap()
}

pub fn step(svm: &mut Svm, call: &Call) -> Step {
    let verdict = verdict(svm, call);
    let ix = call.instruction();
    let mut pre: BTreeMap<Pubkey, AccountSharedData> = BTreeMap::new();
    for m in &ix.accounts {
        pre.insert(m.pubkey, svm.get(&m.pubkey));
    }
    for k in verdict.exp.keys() {
        pre.insert(*k, svm.get(k));
    }
    let now = svm.now();
    let res = svm.execute(&FEE, &[ix]);
    let mut violations = vec![];
    let op = &call.op;
    let (ok, err, trace) = match res {
        Ok(t) => {
            if !verdict.rej.is_empty() && !verdict.either {
                let tags = uniq(verdict.rej.iter().flat_map(|(t, _)| t.iter().copied()).collect());
                // judged only when every reason protects some property
                if verdict.rej.iter().any(|(t, _)| !t.is_empty()) {
                    let why: Vec<&str> = verdict.rej.iter().map(|(_, w)| w.as_str()).collect();
                    violations.push(Violation { tags, what: format!("{} accepted although: {}", op.label(), why.join("; ")) });
                }
            } else if verdict.rej.is_empty() && !verdict.either {
                compare(svm, call, &verdict, &pre, now, &t, &mut violations);
            }
            (true, String::new(), t.trace)
        }
        Err(e) => {
            if verdict.rej.is_empty() && !verdict.either {
                learn_inbox(svm, call);
                let mut tags = verdict.valid.clone();
                tags.push("C35");
                let early = verdict.exp.keys().any(|k| pre.get(k).map(|a| a.lamports() > 0 && *a.owner() == SYSTEM && a.data().is_empty()).unwrap_or(false));
                if early || open_to_all(op) {
                    tags.push("C34");
                }
                let how = if early { ", address funded beforehand" } else { "" };
                violations.push(Violation { tags: uniq(tags), what: format!("valid {} ({}{how}) refused: {e}", op.label(), verdict.class) });
            }
            (false, e, vec![])
        }
    };
    Step { ok, err, verdict, violations, pre, trace }
}

/// Sizes of the accounts the programs create; more would be rent not needed.
fn published_len(kind: &str) -> Option<usize> {
    Some(match kind {
        "config" => 192,
        "inbox" => 75,
        "inst" => 112,
        "irl" => 33,
        "lut" => 41,
        "orl" => 32,
        "outbox" => 139,
        "peer" => 42,
        "rchain" => 41,
        "reg" => 42,
        "replay" => 9,
        "rntt" => 14,
        "vtm" => 341,
        "xpeer" => 41,
        _ => return None,
    })
}

/// Operations that need no privilege: anyone can move a transfer forward.
pub fn open_to_all(op: &Op) -> bool {
    matches!(op, Op::Transfer { .. } | Op::Redeem | Op::ReleaseIn { .. } | Op::ReleaseOut { .. } | Op::Receive { .. } | Op::BcId { .. } | Op::BcPeer { .. } | Op::InitLut { .. } | Op::QReq { .. } | Op::Gov)
}

/// A valid redemption refused because its record is derived differently: find
/// out where the program wants it, so that the history can go on and show
/// what the derivation confuses.
fn learn_inbox(svm: &mut Svm, call: &Call) {
    if call.op != Op::Redeem {
        return;
    }
    let Some(m) = Vtm::parse(svm.data(&call.get("transceiver_message"))) else { return };
    LOGS.with(|l| *l.borrow_mut() = Some(vec![]));
    let mut probe = svm.clone();
    let _ = probe.execute(&FEE, &[call.instruction()]);
    let logs = LOGS.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let all = logs.join(" ");
    if !all.contains("inbox_item") || !all.contains("ConstraintSeeds") {
        return;
    }
    let keys: Vec<Pubkey> = all.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    let mine = call.get("inbox_item");
    if let Some(k) = keys.iter().rev().find(|k| **k != mine) {
        ALT.with(|a| a.borrow_mut().insert(m.msg.digest(m.from_chain), (*k, 0)));
    }
}

fn compare(svm: &Svm, call: &Call, v: &Verdict, pre: &BTreeMap<Pubkey, AccountSharedData>, now: i64, t: &TxOk, out: &mut Vec<Violation>) {
    let op = &call.op;
    let payers: Vec<Pubkey> = call.slots.iter().filter(|s| ["payer", "authority"].contains(&s.name) || (matches!(op, Op::QInit) && s.name == "owner")).map(|s| s.key).collect();
    for (k, a) in pre {
        if v.free.contains(k) || solana_sdk::sysvar::is_sysvar_id(k) {
            continue;
        }
        let was = parse(a);
        let post_a = svm.get(k);
        let is = parse(&post_a);
        let want = v.exp.get(k).unwrap_or(&was);
        for (f, d) in want.diff(&is, now) {
            let kind = if want.kind() == "none" { is.kind() } else { want.kind() };
            let role = call.slots.iter().find(|s| s.key == *k).map(|s| s.name).unwrap_or("account");
            let mut tags = diff_tags(op, v.noop, v.fee_or_hook, kind, f);
            if want.kind() != is.kind() {
                // what was written is not readable as published
                tags.push("C35");
            }
            out.push(Violation { tags: uniq(tags), what: format!("{} ({}): {role} {kind}.{f}: {d}", op.label(), v.class) });
        }
        // lamports
        let l = post_a.lamports();
        let mut lt = diff_tags(op, v.noop, false, "lamports", "lamports");
        lt.push("C33");
        if let Some(w) = v.floor.get(k).filter(|w| l < **w) {
            out.push(Violation { tags: uniq(lt.clone()), what: format!("{} ({}): balance of {k}: expected at least {w}, found {l} (was {})", op.label(), v.class, a.lamports()) });
        }
        if let Some(w) = v.lam.get(k) {
            if *w != u64::MAX && *w != l {
                out.push(Violation { tags: uniq(lt), what: format!("{} ({}): balance of {k}: expected {w}, found {l} (was {})", op.label(), v.class, a.lamports()) });
            }
        } else if payers.contains(k) {
            // pays for the rest: follows from the other balances
        } else if was.kind() == is.kind() && a.lamports() != l {
            let tags = if was == St::None { vec!["C33"] } else { uniq(lt) };
            if was != St::None || !matches!(op, Op::Gov) {
                out.push(Violation { tags, what: format!("{}: balance of {k} changed from {} to {l}", op.label(), a.lamports()) });
            }
        } else if was == St::None && is != St::None && want.kind() == is.kind() {
            if published_len(is.kind()).is_some_and(|n| post_a.data().len() > n) {
                out.push(Violation { tags: vec!["C33"], what: format!("{} ({}): new {} has {} bytes, more than published, paid for by the payer", op.label(), v.class, is.kind(), post_a.data().len()) });
            }
            let w = rent_for(post_a.data().len()).max(a.lamports());
            if w != l {
                out.push(Violation { tags: vec!["C33"], what: format!("{} ({}): new {} holds {l} lamports, its rent is {w}", op.label(), v.class, is.kind()) });
            }
        }
    }
    if let Some(r) = &v.ret {
        let got = t.ret.as_ref().map(|x| x.1.clone()).unwrap_or_default();
        // a trailing zero byte may be dropped by the runtime
        let norm = |x: &[u8]| if x.is_empty() { vec![0] } else { x.to_vec() };
        if norm(&got) != *r {
            out.push(Violation { tags: vec!["C24"], what: format!("{} reported {got:?}, expected {r:?}", op.label()) });
        }
    }
    // transfer hook executions
    let hd = hook_execute_disc();
    let runs: Vec<u64> = t.trace.iter().filter(|i| i.program == HOOK && i.data.len() >= 16 && i.data[..8] == hd).map(|i| u64::from_le_bytes(i.data[8..16].try_into().unwrap())).collect();
    let want: Vec<u64> = v.hook.into_iter().collect();
    if runs != want {
        out.push(Violation { tags: vec!["C25"], what: format!("{}: transfer hook ran for {runs:?}, expected {want:?}", op.label()) });
    }
    // publications
    let posts = t.trace.iter().filter(|i| i.program == CORE_BRIDGE && matches!(i.data.first(), Some(1) | Some(8))).count();
    let want = v.exp.values().filter(|s| matches!(s, St::Posted(_))).count();
    if posts != want {
        let tags = match op {
            Op::BcId { .. } | Op::BcPeer { .. } => vec!["C26"],
            Op::ReleaseOut { .. } if v.noop => vec!["C12", "C13"],
            _ => vec!["C13", "C14"],
        };
        out.push(Violation { tags, what: format!("{}: {posts} messages published, expected {want}", op.label()) });
    }
    if let Some((p, metas, data)) = &v.cpi {
        let calls: Vec<&Invocation> = t.trace.iter().filter(|i| i.height == 2 + call.via.is_some() as usize).collect();
        let good = calls.len() == 1 && calls[0].program == *p && calls[0].data == *data && calls[0].metas == *metas;
        if !good {
            out.push(Violation { tags: vec!["C31"], what: format!("governance executed {calls:?}, expected {p} {metas:?} {data:?}") });
        }
    }
}
