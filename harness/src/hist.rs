//! History monitors: online checkers over the whole event sequence of one
//! ledger (exactly-once, conservation, monotonicity, uniqueness).
use crate::{check::*, ix::*, keys::*, spec::*, state::*, svm::*, world::*};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeSet, HashMap};

#[derive(Default)]
pub struct Hist {
    pub active: bool,
    pub custody: i128,
    pub supply: i128,
    pub taken: u128,
    pub paid: u128,
    pub msgs: HashMap<Pubkey, (u16, Msg)>,
    pub payouts: HashMap<(u16, Msg), u32>,
    pub inbox: HashMap<Pubkey, Inbox>,
    pub voters: HashMap<(u16, Msg), BTreeSet<Pubkey>>,
    pub queued: HashMap<Pubkey, Outbox>,
    pub pubs: HashMap<(Pubkey, Pubkey), u32>,
    pub ids: HashMap<u8, Pubkey>,
    pub relays: HashMap<Pubkey, u32>,
    pub gov: HashMap<(u16, [u8; 32], u64), u32>,
}

impl Hist {
    pub fn start(&mut self, svm: &Svm, mint: &Pubkey, custody: &Pubkey) {
        self.active = true;
        if let St::Mint(m) = parse(&svm.get(mint)) {
            self.supply = m.supply as i128;
        }
        if let St::Tok(t) = parse(&svm.get(custody)) {
            self.custody = t.amount as i128;
        }
    }
    pub fn donated(&mut self, a: u64) {
        self.custody += a as i128;
    }
}

fn tok(a: &solana_sdk::account::AccountSharedData) -> i128 {
    match parse(a) {
        St::Tok(t) => t.amount as i128 + t.withheld as i128,
        _ => 0,
    }
}

pub fn hist_step(w: &mut World, c: &Call, st: &Step) {
    if !st.ok {
        return;
    }
    let delta = |w: &World, k: &Pubkey| tok(&w.svm.get(k)) - st.pre.get(k).map(tok).unwrap_or(0);
    let mut out: Vec<(Vec<&'static str>, String)> = vec![];
    let mut saw: Vec<(&'static str, String)> = vec![];
    let cfg = w.config();
    let enabled_of = |w: &World, x: &Pubkey| -> bool {
        match parse(&w.svm.get(&registered(x).0)) {
            St::Reg { id, .. } if id < 128 => cfg.as_ref().map(|c| c.enabled >> id & 1 == 1).unwrap_or(false),
            _ => false,
        }
    };
    let custody = cfg.as_ref().map(|c| c.custody).unwrap_or_default();
    match &c.op {
        Op::Transfer { .. } => {
            let item = c.get("outbox_item");
            let from = c.get("from");
            let d = -delta(w, &from);
            if d < 0 {
                out.push((vec!["C01", "C04"], "transfer credited the sender".into()));
            }
            if w.mode == 1 {
                w.hist.supply -= d;
            } else {
                w.hist.custody += d;
            }
            w.hist.taken += d.max(0) as u128;
            if let St::Outbox(o) = parse(&w.svm.get(&item)) {
                let v = scale(o.amount, o.decimals, w.decimals).map(|x| x as i128);
                if v != Some(d) {
                    out.push((vec!["C01", "C04"], format!("outbox item of value {v:?} for {d} taken from the sender")));
                }
                saw.push(("C04", format!("taken|{}|{}", fl_name(&w.flavor), if d == 0 { "zero" } else { "value" })));
                // what was asked for, where the oracle knows it
                let o = match st.verdict.exp.get(&item) {
                    Some(St::Outbox(e)) if st.verdict.rej.is_empty() && !st.verdict.either => e.clone(),
                    _ => o,
                };
                if w.hist.queued.insert(item, o).is_some() {
                    out.push((vec!["C13", "C01"], "outbox item overwritten".into()));
                }
            }
            w.items.push(item);
            if w.items.len() > 80 {
                w.items.remove(0);
            }
        }
        Op::Redeem => {
            let ik = c.get("inbox_item");
            let mk = c.get("transceiver_message");
            if let (Some(m), St::Inbox(i)) = (Vtm::parse(w.svm.data(&mk)), parse(&w.svm.get(&ik))) {
                let key = (m.from_chain, m.msg.clone());
                let x = match parse(&w.svm.get(&c.get("transceiver"))) {
                    St::Reg { addr, .. } => addr,
                    _ => Pubkey::default(),
                };
                if let Some(prev) = w.hist.msgs.get(&ik) {
                    if *prev != key {
                        out.push((vec!["C07", "C02", "C23", "C03"], format!("messages {prev:?} and {key:?} share an inbox item")));
                    }
                } else {
                    w.hist.msgs.insert(ik, key.clone());
                }
                let voters = w.hist.voters.entry(key.clone()).or_default();
                voters.insert(x);
                let voters = voters.clone();
                let was = w.hist.inbox.get(&ik).cloned();
                let was_approved = was.as_ref().map(|w| w.status != Status::NotApproved).unwrap_or(false);
                let n = voters.iter().filter(|v| enabled_of(w, v)).count();
                let thr = cfg.as_ref().map(|c| c.threshold).unwrap_or(0);
                let approved = i.status != Status::NotApproved;
                if approved && !was_approved && (n < thr as usize || thr == 0) {
                    out.push((vec!["C07"], format!("approved with {n} of {thr} votes")));
                }
                if !approved && n >= thr as usize && thr > 0 {
                    out.push((vec!["C07"], format!("not approved with {n} of {thr} votes")));
                }
                saw.push(("C07", format!("votes {}/{}|{}", n.min(5), thr.min(5), approved)));
                if let Some(p) = was {
                    if (p.amount, p.recipient) != (i.amount, i.recipient) {
                        out.push((vec!["C23", "C03"], "inbound record changed".into()));
                    }
                    if p.votes & !i.votes != 0 {
                        out.push((vec!["C23", "C07"], "a vote was removed".into()));
                    }
                    let fwd = match (p.status, i.status) {
                        (Status::NotApproved, _) => i.status != Status::Released,
                        (a, b) => a == b,
                    };
                    if !fwd {
                        out.push((vec!["C23", "C02"], format!("status moved from {:?} to {:?}", p.status, i.status)));
                    }
                    saw.push(("C23", format!("{}->{}", sname(p.status), sname(i.status))));
                } else {
                    let want = scale(m.msg.amount, m.msg.decimals, w.decimals);
                    if want != Some(i.amount) || i.recipient.to_bytes() != m.msg.to {
                        out.push((vec!["C23", "C03", "C20"], format!("recorded {} for {:?}, message {:?}", i.amount, i.recipient, m.msg)));
                    }
                }
                w.hist.inbox.insert(ik, i);
            }
        }
        Op::ReleaseIn { .. } => {
            let ik = c.get("inbox_item");
            let rk = c.get("recipient");
            let d = delta(w, &rk);
            let was = st.pre.get(&ik).map(parse);
            let is = parse(&w.svm.get(&ik));
            if let (Some(St::Inbox(a)), St::Inbox(b)) = (was, is) {
                let ok = match (a.status, b.status) {
                    (Status::Released, Status::Released) => d == 0,
                    (x, y) if x == y => d == 0,
                    (Status::After(t), Status::Released) => t <= w.svm.now() && (rk == custody || d == b.amount as i128),
                    _ => false,
                };
                if !ok {
                    out.push((vec!["C23", "C12", "C02"], format!("{:?} -> {:?} with {d} credited", a.status, b.status)));
                }
                saw.push(("C23", format!("release {}->{}", sname(a.status), sname(b.status))));
                w.hist.inbox.insert(ik, b);
            }
            if d != 0 {
                match w.hist.msgs.get(&ik).cloned() {
                    Some(m) => {
                        let n = w.hist.payouts.entry(m.clone()).or_default();
                        *n += 1;
                        if *n > 1 {
                            out.push((vec!["C02", "C04"], format!("message {m:?} paid {n} times")));
                        }
                        saw.push(("C02", format!("payout #{n}|{}|{}", fl_name(&w.flavor), w.mode)));
                        let want = scale(m.1.amount, m.1.decimals, w.decimals).unwrap_or(0);
                        if d != want as i128 && rk != custody {
                            out.push((vec!["C03", "C04"], format!("paid {d}, message says {want}")));
                        }
                        let rec = ata(&Pubkey::new_from_array(m.1.to), &w.mint, &w.tp);
                        if rk != rec {
                            out.push((vec!["C03"], "paid to an account that is not the recipient's".into()));
                        }
                    }
                    None => out.push((vec!["C02", "C06"], "payout for no redeemed message".into())),
                }
            }
            w.hist.paid += d.max(0) as u128;
            if w.mode == 1 {
                w.hist.supply += d;
                if rk == custody {
                    w.hist.custody += d;
                }
            } else if rk != custody {
                w.hist.custody -= d;
            }
            saw.push(("C04", format!("paid|{}|{}", fl_name(&w.flavor), if d == 0 { "zero" } else { "value" })));
        }
        Op::Register => {
            if let St::Reg { id, addr, .. } = parse(&w.svm.get(&c.get("registered_transceiver"))) {
                if let Some(o) = w.hist.ids.insert(id, addr) {
                    if o != addr {
                        out.push((vec!["C21"], format!("id {id} given to {o} and {addr}")));
                    }
                }
                for (i, a) in &w.hist.ids {
                    match parse(&w.svm.get(&registered(a).0)) {
                        St::Reg { id, addr, .. } if id == *i && addr == *a => {}
                        s => out.push((vec!["C21"], format!("registration {i} of {a} became {s:?}"))),
                    }
                }
                saw.push(("C21", format!("id {id}")));
            }
        }
        Op::QReq { .. } => {
            *w.hist.relays.entry(c.get("outbox_item")).or_default() += 1;
            if w.hist.relays[&c.get("outbox_item")] > 1 {
                out.push((vec!["C28"], "second relay request for an item".into()));
            }
            saw.push(("C28", "one per item".into()));
        }
        Op::QClose => {
            let rk = c.get("relay_request");
            w.hist.relays.retain(|k, _| q_request(k) != rk);
        }
        Op::Gov => {
            if let Some(p) = Posted::parse(w.svm.data(&c.get("vaa"))) {
                let n = w.hist.gov.entry((p.chain, p.emitter, p.sequence)).or_default();
                *n += 1;
                if *n > 1 {
                    out.push((vec!["C30"], format!("governance message {} executed {n} times", p.sequence)));
                }
                saw.push(("C30", "executed once".into()));
            }
        }
        _ => {}
    }
    // every publication on behalf of a transceiver
    for i in st.trace.iter().filter(|i| i.program == CORE_BRIDGE && matches!(i.data.first(), Some(1) | Some(8)) && i.metas.len() > 2 && i.data.len() > 13) {
        let em = i.metas[2].pubkey;
        let prog = [NTT, XCVR].into_iter().find(|p| emitter(p) == em);
        let payload = &i.data[9..i.data.len() - 1];
        if payload.len() > 102 && payload[..4] == [0x99, 0x45, 0xff, 0x10] {
            let id = Pubkey::new_from_array(payload[70..102].try_into().unwrap());
            match (prog, decode_transceiver(payload), w.hist.queued.get(&id)) {
                (Some(p), Ok(Some(m)), Some(q)) => {
                    let n = w.hist.pubs.entry((id, p)).or_default();
                    *n += 1;
                    if *n > 1 {
                        out.push((vec!["C13"], format!("item {id} published {n} times by {p}")));
                    }
                    if (m.msg.amount, m.msg.decimals, m.msg.to, m.msg.to_chain, m.msg.sender, m.rcpt_mgr) != (q.amount, q.decimals, q.to, q.chain, q.sender.to_bytes(), q.manager) {
                        out.push((vec!["C14"], "published message differs from what was queued".into()));
                    }
                    if q.release > w.svm.now() {
                        out.push((vec!["C12"], "published before the release time".into()));
                    }
                    saw.push(("C13", format!("publication #{n} by {}", if p == NTT { "builtin" } else { "standalone" })));
                }
                _ => out.push((vec!["C13", "C14"], format!("published {id}, which was never queued, or malformed"))),
            }
        }
    }
    if w.hist.active && cfg.is_some() {
        let cust = match parse(&w.svm.get(&custody)) {
            St::Tok(t) => t.amount as i128,
            _ => 0,
        };
        let sup = match parse(&w.svm.get(&w.mint)) {
            St::Mint(m) => m.supply as i128,
            _ => 0,
        };
        if cust != w.hist.custody {
            out.push((vec!["C04"], format!("{}: custody holds {cust}, history says {}", c.op.label(), w.hist.custody)));
            w.hist.custody = cust;
        }
        if sup != w.hist.supply {
            out.push((vec!["C04"], format!("{}: supply is {sup}, history says {}", c.op.label(), w.hist.supply)));
            w.hist.supply = sup;
        }
    }
    for (t, what) in out {
        if w.verbose {
            println!("  !! {t:?} {what}");
        }
        w.obs.violate(&t, format!("history: {what}"));
    }
    for (p, s) in saw {
        w.obs.saw(p, format!("history|{s}"), || format!("history monitor: {s} after {}", c.op.label()));
    }
}

pub fn sname(s: Status) -> &'static str {
    match s {
        Status::NotApproved => "unapproved",
        Status::After(_) => "approved",
        Status::Released => "released",
    }
}
