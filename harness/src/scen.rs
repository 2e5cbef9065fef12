//! Scenarios: what kind of deployment is built and which workload drives it.
use crate::{ix::*, keys::*, rng::*, spec::*, state::*, svm::*, world::*};
use solana_sdk::{account::{ReadableAccount, WritableAccount}, instruction::AccountMeta, pubkey::Pubkey};

/// Weights of the manager workload, shifted towards one property.
pub fn weights(focus: &str) -> [u32; 20] {
    // 0 transfer 1 receive 2 external attestation 3 redeem 4 release_in 5 release_out 6 mark 7 clock
    // 8 set_peer 9 set_out 10 set_in 11 pause 12 register 13 set_xpeer 14 own2 15 own1 16 claim/lut/bc 17 inject 18 unpause 19 lut/bc
    let mut w = [10, 8, 5, 10, 8, 8, 5, 6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 1];
    let boost: &[(usize, u32)] = match focus {
        "C01" | "C15" | "C08" => &[(0, 30), (9, 3)],
        "C02" => &[(3, 14), (4, 20), (1, 6)],
        "C03" => &[(4, 20), (3, 10), (5, 8), (7, 5)],
        "C12" => &[(4, 18), (3, 10), (5, 20), (0, 8), (7, 4)],
        "C04" => &[(0, 10), (4, 15), (17, 4)],
        "C05" | "C19" => &[(1, 35)],
        "C06" => &[(3, 25), (2, 10), (1, 6), (8, 2)],
        "C07" | "C23" => &[(3, 25), (2, 15), (17, 8), (4, 8)],
        "C09" => &[(3, 20), (1, 10), (10, 6), (7, 6)],
        "C10" => &[(0, 12), (3, 12), (9, 10), (10, 10), (7, 12)],
        "C11" => &[(0, 15), (3, 15), (10, 4), (9, 4)],
        "C13" | "C14" => &[(5, 30), (6, 8), (0, 8)],
        "C16" => &[(11, 10), (5, 4), (4, 4), (1, 4), (0, 4), (6, 4)],
        "C17" => &[(8, 6), (9, 6), (10, 6), (11, 6), (12, 6), (13, 6), (18, 2)],
        "C18" => &[(14, 15), (15, 6), (16, 25)],
        "C20" => &[(0, 20), (3, 15), (2, 10)],
        "C21" => &[(12, 40)],
        "C24" => &[(6, 40), (0, 8), (17, 4)],
        "C25" => &[(0, 20), (4, 20), (3, 8)],
        "C26" => &[(19, 40), (8, 2), (13, 5)],
        "C27" => &[(19, 60)],
        "C32" => &[(8, 8), (10, 6), (0, 8), (1, 8), (3, 8), (13, 4)],
        "C35" => &[(8, 3), (9, 3), (10, 3), (11, 3), (12, 3), (13, 3), (14, 4), (15, 3), (16, 6), (18, 2), (19, 8)],
        _ => &[],
    };
    for (i, b) in boost {
        w[*i] += b;
    }
    w
}

pub fn general(seed: u64, focus: &str, steps: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    if focus == "C25" && !w.flavor.hook() && w.rng.chance(2, 3) {
        let fl = *w.rng.pick(&[Flavor::Hook, Flavor::Hook, Flavor::Fee(100, u64::MAX), Flavor::FeeHook(1, 7), Flavor::Fee(10000, 3)]);
        let (mode, dec) = (w.mode, w.decimals);
        w = World::blank_with(w.rng.clone(), verbose, fl, mode, dec);
    }
    w.deploy();
    if w.obs.done() || w.config().is_none() {
        return w.obs;
    }
    if focus == "C35" {
        w.ask();
    }
    let wts = weights(focus);
    let mutp = if focus == "C35" { 3 } else { *w.rng.pick(&[0u64, 5, 12, 12, 30, 50]) };
    for _ in 0..steps {
        w.random_step(&wts, mutp);
        if w.obs.done() {
            break;
        }
        // the owner does not leave it paused for long
        if focus != "C16" && w.rng.chance(1, 8) && w.config().map_or(false, |c| c.paused) {
            let o = w.owner();
            if w.signable(&o) {
                let c = w.noted(pause(o, false), o);
                w.call(c);
            }
        }
    }
    w.obs
}

/// A deployment without hostile noise, followed through to the end of every
/// transfer: delivery through all transceivers, delays, pauses, re-delivery.
pub fn voting(seed: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    w.mode = w.rng.below(2) as u8;
    w.deploy();
    if w.config().is_none() {
        return w.obs;
    }
    // make sure several transceivers vote
    let o = w.owner();
    for x in [NTT, XCVR, w.ext[0], w.ext[1], w.ext[2]] {
        if w.svm.get(&registered(&x).0).lamports() == 0 && w.rng.chance(4, 5) {
            w.call(register(o, o, x));
        }
    }
    for _ in 0..w.rng.range(2, 6) {
        let Some(m) = w.genuine() else { break };
        let en = w.config().unwrap().enabled.count_ones().max(1) as u64;
        let t = w.rng.range(1, en.min(5)) as u8;
        w.edit_config(|c| c.threshold = t);
        // every transceiver attests, some disagree
        for x in w.ext.clone() {
            let mut mm = m.clone();
            if w.rng.chance(1, 5) {
                mm.msg.amount ^= 1;
            }
            let b = Vtm { from_chain: mm.from, src_mgr: mm.src, rcpt_mgr: mm.rcpt, msg: mm.msg.clone() }.bytes();
            let k = w.rng.key();
            w.svm.set(k, acct(rent_for(b.len()), b, x));
            w.delivered.push(Delivered { x, vtm: k, m: mm });
        }
        for x in [NTT, XCVR] {
            if let St::XPeer { addr, .. } = parse(&w.svm.get(&xpeer(&x, m.from).0)) {
                let vk = w.rng.key();
                w.seq += 1;
                let b = Posted::vaa(m.from, addr, w.seq, m.msg.transceiver_wire(&m.src, &m.rcpt, &[])).bytes();
                w.svm.set(vk, acct(rent_for(b.len()), b, CORE_BRIDGE));
                let u = w.user();
                if w.call(receive(x, u, vk, m.from, &m.msg.id)) {
                    w.delivered.push(Delivered { x, vtm: xmsg(&x, m.from, &m.msg.id), m: m.clone() });
                }
            }
        }
        for _ in 0..w.rng.range(6, 22) {
            let r = w.rng.below(20);
            match r {
                0..=9 => {
                    w.redeem_intent(3);
                }
                10..=14 => {
                    w.release_in_intent(3);
                }
                15 | 16 => w.advance_intent(),
                17 => w.inject_intent(),
                18 => {
                    let o = w.owner();
                    let p = w.rng.bool();
                    w.call(pause(o, p));
                }
                _ => {
                    let ch = m.from;
                    let o = w.owner();
                    let l = w.limit_value();
                    w.call(set_in(o, l, ch));
                }
            }
        }
        if w.delivered.len() > 40 {
            w.delivered.drain(..20);
        }
        if w.obs.done() {
            break;
        }
    }
    w.obs
}

pub fn init(seed: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    let u = w.users.clone();
    if w.rng.chance(1, 3) {
        // the custody account exists already and may hold tokens
        let m = w.mint;
        let cu = w.make_ata(token_authority(), m);
        if w.rng.bool() && !w.flavor.hook() {
            let n = 1 + w.rng.below(1000);
            w.mint_to(m, cu, u[0], n);
        }
    }
    if w.rng.chance(1, 6) {
        let k = *w.rng.pick(&[outbox_rl(), token_authority()]);
        w.svm.set(k, acct(1 + w.rng.below(10_000_000), vec![], SYSTEM));
    }
    if w.mode == 1 && w.rng.chance(4, 5) {
        let k = if w.rng.chance(4, 5) { token_authority() } else { u[1] };
        w.give_mint_authority(k);
    } else if w.rng.chance(1, 5) {
        // a mint with a fixed supply: no mint authority at all
        let ix = token_ix(w.tp, spl_token::instruction::set_authority(&SPL, &w.mint, None, spl_token::instruction::AuthorityType::MintTokens, &u[0], &[]).unwrap());
        w.raw(ix);
    }
    if w.rng.chance(1, 6) {
        w.svm.set(config(), acct(1_000, vec![], SYSTEM));
    }
    if w.rng.chance(1, 8) {
        w.svm.deploy(NTT, if w.rng.bool() { None } else { Some(u[2]) });
    }
    for _ in 0..8 {
        let dep = if w.rng.chance(4, 5) { u[0] } else { w.user() };
        let payer = w.user();
        let mode = if w.rng.chance(1, 8) { 1 - w.mode } else { w.mode };
        let limit = w.limit_value();
        let (m, tp, ch) = (if w.rng.chance(1, 12) { w.mint2 } else { w.mint }, w.tp, w.chain);
        let mut c = initialize(payer, dep, m, tp, ch, limit, mode);
        c.note = format!("{}{}", if dep == u[0] { "deployer" } else { "stranger" }, if w.config().is_some() { " again" } else { "" });
        let mutp = if w.config().is_some() { 10 } else { 45 };
        if w.rng.chance(1, 12) {
            // program data of another program the caller controls
            c = c.with("program_data", program_data(&XCVR)).with("deployer", u[0]);
            w.svm.deploy(NTT, Some(u[3]));
            c.note = "other program's data".into();
        }
        w.go(c, mutp);
        if w.config().is_some() && !w.hist.active && w.config().unwrap().mint == w.mint {
            let cu = w.config().unwrap().custody;
            let m = w.mint;
            w.hist.start(&w.svm, &m, &cu);
        }
        if w.obs.done() {
            break;
        }
    }
    w.obs
}

/// Registration up to and beyond the maximum.
pub fn register_many(seed: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    w.deploy();
    let Some(cfg) = w.config() else { return w.obs };
    let o = cfg.owner;
    let start = if w.rng.chance(1, 3) {
        cfg.next_id
    } else {
        let n = (w.rng.range(100, 127) as u8).max(cfg.next_id);
        w.edit_config(|c| c.next_id = n);
        n
    };
    let mut progs = vec![];
    for i in 0..(131 - start as i64).max(1) {
        let x = if w.rng.chance(1, 12) && !progs.is_empty() {
            *w.rng.pick(&progs)
        } else if w.rng.chance(1, 20) {
            w.user()
        } else {
            let k = w.rng.key();
            w.svm.deploy(k, None);
            k
        };
        if w.rng.chance(1, 10) {
            let e = w.rng.u64() as u128 | (w.rng.u64() as u128) << 64;
            w.edit_config(|c| c.enabled = e);
        }
        let mut c = register(o, o, x);
        c.note = format!("sequence {}", i / 16);
        if w.go(c, 3) {
            progs.push(x);
        }
        if w.obs.done() {
            break;
        }
    }
    // high-numbered transceivers must work as any other
    if !w.obs.done() && !progs.is_empty() && !w.toks.is_empty() {
        w.ext = (0..3).map(|_| *w.rng.pick(&progs)).collect();
        if w.config().map(|c| c.enabled == 0).unwrap_or(true) {
            w.edit_config(|c| c.enabled = u128::MAX);
        }
        for _ in 0..60 {
            match w.rng.below(6) {
                0 => {
                    w.transfer_intent(0);
                }
                1 => {
                    w.mark_intent(4);
                }
                2 => {
                    w.mark_intent(4);
                }
                3 => w.external_attest(),
                4 => {
                    w.redeem_intent(4);
                }
                _ => {
                    w.release_in_intent(4);
                }
            }
        }
    }
    w.obs
}

/// Many registered transceivers and a high threshold: every vote is cast for
/// real, in any order, with repetitions, disabling and re-enabling in between;
/// and transfers while only high-numbered (or no) transceivers are enabled.
pub fn quorum(seed: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    w.mode = w.rng.below(2) as u8;
    w.deploy();
    let Some(cfg) = w.config() else { return w.obs };
    let o = cfg.owner;
    let n = match w.rng.below(6) {
        0 => 128usize,
        1 => w.rng.range(60, 70) as usize,
        2 => w.rng.range(30, 36) as usize,
        _ => w.rng.range(6, 20) as usize,
    };
    if w.rng.chance(1, 3) {
        let room = 128u64.saturating_sub(n as u64).max(cfg.next_id as u64);
        let k = w.rng.range(cfg.next_id as u64, room) as u8;
        w.edit_config(|c| c.next_id = k);
    }
    let mut xs = vec![];
    for _ in 0..n {
        let x = w.rng.key();
        w.svm.deploy(x, None);
        let mut c = register(o, o, x);
        c.note = "setup".into();
        if w.call(c) {
            xs.push(x);
        } else {
            break;
        }
        if w.obs.done() {
            return w.obs;
        }
    }
    if xs.len() < 4 {
        return w.obs;
    }
    w.ext = xs[xs.len() - 3..].to_vec();
    let full = w.config().unwrap().enabled;
    for _ in 0..w.rng.range(1, 2) {
        let Some(m) = w.genuine() else { break };
        let t = match w.rng.below(4) {
            0 => xs.len() as u64,
            1 => w.rng.range(1, xs.len() as u64),
            _ => (1u64 << w.rng.below(7)) + w.rng.below(3),
        }
        .clamp(1, xs.len() as u64) as u8;
        w.edit_config(|c| c.threshold = t);
        let mut order = xs.clone();
        for i in (1..order.len()).rev() {
            let j = w.rng.usize(i + 1);
            order.swap(i, j);
        }
        let payer = w.user();
        let mut last: Option<Call> = None;
        for (i, x) in order.into_iter().enumerate() {
            let b = Vtm { from_chain: m.from, src_mgr: m.src, rcpt_mgr: m.rcpt, msg: m.msg.clone() }.bytes();
            let k = w.rng.key();
            w.svm.set(k, acct(rent_for(b.len()), b, x));
            w.delivered.push(Delivered { x, vtm: k, m: m.clone() });
            if i % 7 == 0 && w.rng.chance(1, 3) {
                // some votes are put aside for a while
                let mask = w.rng.u64() as u128 | (w.rng.u64() as u128) << 64;
                let e = if w.rng.chance(1, 2) { full } else { full & (mask | mask.rotate_left(9)) };
                w.edit_config(|c| c.enabled = e);
                let l = format!("(enabled transceivers set to {e:b})");
                w.obs.log.push(l);
            }
            let inbox = m.msg.inbox(m.from).0;
            let mut c = redeem(payer, m.from, k, &x, w.mint, inbox);
            c.note = format!("vote {}", if i < 8 { "early" } else if i < 64 { "later" } else { "late" });
            if w.call(c.clone()) && !w.inboxes.contains(&inbox) {
                w.inboxes.push(inbox);
            }
            if w.rng.chance(1, 10) {
                if let Some(l) = last.clone() {
                    let mut l = l;
                    l.note = "vote repeated".into();
                    w.call(l);
                }
            }
            last = Some(c);
            if w.rng.chance(1, 12) {
                w.release_in_intent(0);
            }
            if w.obs.done() {
                return w.obs;
            }
        }
        w.edit_config(|c| c.enabled = full);
        w.release_in_intent(0);
        w.advance_intent();
        w.release_in_intent(0);
        // sending with few transceivers, or none
        for _ in 0..w.rng.range(2, 6) {
            let e = match w.rng.below(5) {
                0 => 0,
                1 => full,
                2 => full & (u128::MAX << 64),
                _ => 1u128 << (w.config().unwrap().next_id - 1 - w.rng.below(3) as u8),
            };
            w.edit_config(|c| c.enabled = e);
            let l = format!("(enabled transceivers set to {e:b})");
            w.obs.log.push(l);
            w.transfer_intent(0);
            w.mark_intent(0);
            w.mark_intent(3);
            if w.obs.done() {
                return w.obs;
            }
        }
        w.edit_config(|c| c.enabled = full);
        // one item published through many transceivers, neighbours by a power of two among them
        let now = w.svm.now();
        let due: Vec<Pubkey> = w.items.iter().filter(|k| matches!(parse(&w.svm.get(k)), St::Outbox(o) if o.release <= now)).copied().collect();
        if !due.is_empty() {
            let item = *w.rng.pick(&due);
            let mut ids = vec![];
            for _ in 0..w.rng.range(2, 8) {
                let i = w.rng.usize(xs.len());
                ids.push(i);
                let j = i ^ (1 << w.rng.below(7));
                if j < xs.len() {
                    ids.push(j);
                }
            }
            if w.rng.bool() {
                let i = *w.rng.pick(&ids);
                ids.push(i);
            }
            for i in ids {
                let mut c = mark(xs[i], item);
                c.note = "own, many".into();
                w.call(c);
                if w.obs.done() {
                    return w.obs;
                }
            }
        }
    }
    w.obs
}

// ---------------------------------------------------------------- quoter

fn q_val(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => r.amount(),
        5 => 1_000_000_000,
        6 => 999_999_999,
        7 => r.range(1, 5_000_000_000),
        8 => r.range(1, 1_000_000),
        _ => {
            let e = r.below(14) as u32;
            10u64.pow(e) + r.below(10)
        }
    }
}

pub fn quoter(seed: u64, focus: &str, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    w.deploy();
    if w.config().is_none() {
        return w.obs;
    }
    let u = w.users.clone();
    let o = w.owner();
    for x in [NTT, XCVR] {
        if w.svm.get(&registered(&x).0).lamports() == 0 {
            w.call(register(o, o, x));
        }
    }
    let rec = w.rng.key();
    w.svm.set(rec, acct(rent_for(0), vec![], SYSTEM));
    // initialisation attempts, also while nobody may upgrade the program
    if w.rng.chance(1, 4) {
        w.svm.deploy(QUOTER, None);
        for _ in 0..2 {
            let who = w.user();
            let mut c = q_init(who, rec);
            c.note = "no upgrade authority".into();
            w.go(c, 5);
        }
        w.svm.deploy(QUOTER, Some(u[0]));
    }
    for _ in 0..3 {
        let who = if w.rng.chance(3, 5) { u[0] } else { w.user() };
        let r = if w.rng.chance(1, 8) { Pubkey::default() } else { rec };
        let mut c = q_init(who, r);
        c.note = if who == u[0] { "deployer".into() } else { "stranger".into() };
        if w.rng.chance(1, 10) {
            c = c.with("program_data", program_data(&NTT));
            c.note = "other program's data".into();
        }
        w.go(c, 15);
    }
    if w.svm.lamports(&q_instance()) == 0 {
        w.call(q_init(u[0], rec));
    }
    let mut chains = w.chains.clone();
    chains.extend(w.spare.iter());
    let rc = chains.clone();
    let mut progs = vec![NTT, w.ext[0], w.ext[1], XCVR];
    progs.push(w.evil);
    let steps = 120;
    let req = if focus == "C28" { 30 } else { 12 };
    // a sane starting point, so that requests can succeed
    let a = u[0];
    w.call(q_sol(a, 150_000_000));
    for ch in &chains[..chains.len().min(3)] {
        w.call(q_chain_ix(a, *ch));
        w.call(q_params(a, *ch, 1_000_000, 100_000));
        w.call(q_prices(a, *ch, 2_000_000_000, 30_000_000));
    }
    let idx = match parse(&w.svm.get(&registered(&NTT).0)) {
        St::Reg { id, .. } => id,
        _ => 0,
    };
    w.call(q_ntt_ix(a, NTT, idx, 500_000));
    for _ in 0..steps {
        let (owner, assistant) = match parse(&w.svm.get(&q_instance())) {
            St::Inst { owner, assistant, .. } => (owner, assistant),
            _ => (u[0], u[0]),
        };
        let fee_rec = match parse(&w.svm.get(&q_instance())) {
            St::Inst { recipient, .. } => recipient,
            _ => rec,
        };
        let who = match w.rng.below(8) {
            0 => w.user(),
            1 | 2 if assistant != Pubkey::default() => assistant,
            _ => owner,
        };
        let role = if who == owner {
            "owner"
        } else if who == assistant {
            "assistant"
        } else {
            "stranger"
        };
        let ch = *w.rng.pick(&rc);
        let prog = *w.rng.pick(&progs);
        let k = w.rng.weighted(&[4, 4, 3, 3, 2, 3, 6, 6, req, 8, 6, 8, 2]);
        let mut c = match k {
            0 => {
                let r = if w.rng.chance(1, 6) {
                    Pubkey::default()
                } else if w.rng.bool() {
                    rec
                } else {
                    w.user()
                };
                q_fee(who, r)
            }
            1 => {
                let a = if w.rng.chance(1, 4) { QUOTER } else { w.user() };
                q_assist(who, a)
            }
            2 => q_chain_ix(who, ch),
            3 => {
                let i = if w.rng.chance(2, 3) { idx } else { *w.rng.pick(&[0u8, 1, 64, 127, 128, 200, 255]) };
                let g = *w.rng.pick(&[0u32, 1, 500_000, u32::MAX, w.rng.clone().u64() as u32]);
                q_ntt_ix(who, prog, i, g)
            }
            4 => q_dereg(who, prog),
            5 => {
                let p = q_val(&mut w.rng);
                q_sol(who, p)
            }
            6 => {
                let (a, b) = (q_val(&mut w.rng), q_val(&mut w.rng));
                q_prices(who, ch, a, b)
            }
            7 => {
                let (a, b) = (q_val(&mut w.rng), q_val(&mut w.rng));
                q_params(who, ch, a, b)
            }
            8 => {
                let payer = w.user();
                let fake = w.rng.chance(1, 4);
                let item = if fake || w.items.is_empty() {
                    let p = *w.rng.pick(&[w.ext[0], w.ext[1], w.evil]);
                    if w.fake_items.is_empty() || w.rng.bool() {
                        let k = w.fake_outbox(p);
                        w.fake_items.push(k);
                        k
                    } else {
                        *w.rng.pick(&w.fake_items)
                    }
                } else {
                    let ready: Vec<Pubkey> = w.items.iter().copied().filter(|i| w.svm.lamports(&q_request(i)) == 0 && Outbox::parse(w.svm.data(i)).map_or(false, |o| o.released >> idx & 1 == 1)).collect();
                    let n = w.items.len();
                    if !ready.is_empty() && w.rng.chance(3, 5) {
                        *w.rng.pick(&ready)
                    } else {
                        w.items[n - 1 - w.rng.usize(n.min(4))]
                    }
                };
                let (ich, own) = match Outbox::parse(w.svm.data(&item)) {
                    Some(o) => (o.chain, *w.svm.get(&item).owner()),
                    None => (ch, NTT),
                };
                if own == NTT && w.rng.chance(2, 3) && Outbox::parse(w.svm.data(&item)).map_or(false, |o| o.released >> idx & 1 == 0 && o.release <= w.svm.now()) {
                    let mut c = release_out(NTT, false, payer, item);
                    c.note = "before the request".into();
                    w.call(c);
                }
                if w.svm.lamports(&q_ntt(&own).0) == 0 && w.rng.chance(2, 3) {
                    let g = *w.rng.pick(&[0u32, 1, 500_000, 500_000, u32::MAX]);
                    w.call(q_ntt_ix(owner, own, idx, g));
                }
                if w.svm.lamports(&q_chain(ich).0) == 0 && w.rng.chance(1, 2) {
                    w.call(q_chain_ix(owner, ich));
                }
                let (mut max, mut base, mut native, mut gas) = match parse(&w.svm.get(&q_chain(ich).0)) {
                    St::RChain { max, base, native, gas, .. } => (max, base, native, gas),
                    _ => (0, 0, 0, 0),
                };
                let cost = match parse(&w.svm.get(&q_ntt(&own).0)) {
                    St::RNtt { gas, .. } => gas,
                    _ => 0,
                };
                let sol = match parse(&w.svm.get(&q_instance())) {
                    St::Inst { sol, .. } => sol,
                    _ => 0,
                };
                let drop = match w.rng.below(6) {
                    0 => max,
                    1 => max.saturating_add(1),
                    2 => 0,
                    3 => q_val(&mut w.rng),
                    _ => w.rng.below(max.max(1)),
                };
                if w.rng.chance(1, 5) && sol > 0 {
                    // a price just around the rent of the request
                    let d = *w.rng.pick(&[0u64, 1, 1, 2, 3, 100, 5000]);
                    let want = if w.rng.chance(1, 4) { rent_for(16) - d } else { rent_for(16) + d };
                    if sol > 1_000_000_000 {
                        let s = w.rng.range(1, 1_000_000_000);
                        w.call(q_sol(owner, s));
                    }
                    let sol = match parse(&w.svm.get(&q_instance())) {
                        St::Inst { sol, .. } => sol,
                        _ => 1,
                    };
                    let need = (want as u128 * sol as u128).div_ceil(1_000_000_000) as u64;
                    if quote(drop, gas, cost, native, 0, sol).map_or(true, |q| q > want) {
                        w.call(q_prices(owner, ich, 0, gas));
                        native = 0;
                    }
                    let used = quote(drop, gas, cost, native, 0, 1_000_000_000).unwrap_or(0);
                    w.call(q_params(owner, ich, max, need.saturating_sub(used)));
                    if let St::RChain { max: a, base: b, native: c, gas: d, .. } = parse(&w.svm.get(&q_chain(ich).0)) {
                        (max, base, native, gas) = (a, b, c, d);
                    }
                    let _ = max;
                }
                let sol = match parse(&w.svm.get(&q_instance())) {
                    St::Inst { sol, .. } => sol,
                    _ => 0,
                };
                let fee = quote(drop, gas, cost, native, base, sol).unwrap_or(0).max(rent_for(16));
                let mf = match w.rng.below(6) {
                    0 => fee,
                    1 => fee - 1,
                    2 => fee.saturating_add(1),
                    3 => q_val(&mut w.rng),
                    _ => u64::MAX,
                };
                let och = if w.rng.chance(1, 15) { ch } else { ich };
                let op = if w.rng.chance(1, 15) { prog } else { own };
                let mut c = q_req(payer, och, op, item, drop, mf);
                c.note = format!("{}{}", if fake { "other deployment" } else { "manager item" }, if och != ich { ", other chain" } else { "" });
                let purse = w.svm.get(&payer);
                let poor = w.rng.chance(1, 8);
                if poor {
                    // somebody who has hardly anything
                    let l = match w.rng.below(4) {
                        0 => fee - 1,
                        1 => fee / 2 + rent_for(16) / 2,
                        2 => fee.saturating_add(w.rng.range(0, 20_000_000)),
                        _ => fee.saturating_sub(w.rng.range(0, 2_000_000)),
                    };
                    w.svm.set(payer, acct(l.clamp(rent_for(0), 1 << 60), vec![], SYSTEM));
                    c.note = format!("{}, short of money", c.note);
                }
                w.go(c, if poor { 0 } else { 8 });
                if poor {
                    w.svm.set(payer, purse);
                }
                if w.obs.done() {
                    return w.obs;
                }
                continue;
            }
            9 => {
                // new item, possibly published
                w.transfer_intent(0);
                if w.rng.chance(3, 4) {
                    if let Some(item) = w.pick_item() {
                        let p = w.user();
                        let x = if w.rng.chance(4, 5) { NTT } else { XCVR };
                        w.call(release_out(x, false, p, item));
                    }
                }
                continue;
            }
            10 => {
                let mut all = w.items.clone();
                all.extend(w.fake_items.iter());
                let open: Vec<Pubkey> = all.iter().copied().filter(|i| w.svm.lamports(&q_request(i)) > 0).collect();
                let item = if !open.is_empty() && w.rng.chance(7, 8) { *w.rng.pick(&open) } else { all.first().copied().unwrap_or(rec) };
                let to = if w.rng.chance(1, 8) { w.user() } else { fee_rec };
                q_close(who, to, item)
            }
            11 => {
                // restore something workable
                let ch = *w.rng.pick(&w.chains);
                let x = w.rng.range(1, 1 << 40);
                match w.rng.below(3) {
                    0 => q_sol(owner, 1 + x % 1_000_000_000),
                    1 => q_params(owner, ch, x % 10_000_000, x % 1_000_000),
                    _ => q_prices(owner, ch, x % 10_000_000_000, (x >> 7) % 1_000_000_000),
                }
            }
            _ => {
                w.advance_intent();
                continue;
            }
        };
        c.note = role.into();
        w.go(c, 12);
        if w.obs.done() {
            break;
        }
    }
    w.obs
}

// ------------------------------------------------------------ governance

pub fn post_gov(w: &mut World, chain: u16, emitter: [u8; 32], seq: u64, payload: Vec<u8>, magic: [u8; 3], owner: Pubkey) -> Pubkey {
    let vk = w.rng.key();
    let mut p = Posted::vaa(chain, emitter, seq, payload);
    p.magic = magic;
    let b = p.bytes();
    w.svm.set(vk, acct(rent_for(b.len()), b, owner));
    vk
}

pub fn gov_scenario(seed: u64, verbose: bool) -> Obs {
    let mut w = World::blank(seed, verbose);
    w.deploy();
    if w.config().is_none() {
        return w.obs;
    }
    w.svm.set(gov(), acct(FUND, vec![], SYSTEM));
    let owner = w.owner();
    let mut calls: Vec<Call> = vec![];
    let mut posted: Vec<(u64, Vec<u8>, Vec<AccountMeta>, Pubkey, Option<Box<Call>>, u16, [u8; 32])> = vec![];
    for step in 0..90u64 {
        if w.obs.done() {
            break;
        }
        // hand the manager to governance at some point (and maybe take it back)
        if step == 20 + seed % 20 {
            let c = transfer_own(owner, gov(), true);
            w.call(c);
        }
        if w.rng.chance(1, 4) && !calls.is_empty() {
            let mut c = w.rng.pick(&calls).clone();
            c.note = "again".into();
            w.go(c, 5);
            continue;
        }
        let payer = w.user();
        let mut inner = None;
        let (program, accounts, data, mut extra): (Pubkey, Vec<(Pubkey, bool, bool)>, Vec<u8>, Vec<AccountMeta>) = if w.rng.chance(2, 5) {
            // an administrative instruction of the manager
            let ch = *w.rng.pick(&w.chains.clone());
            let l = w.limit_value();
            let ad = w.rng.bytes32();
            let d = w.peer_decimals();
            let g = gov();
            let p = if w.rng.bool() { payer } else { g };
            let c = match w.rng.below(8) {
                0 | 1 => pause(g, w.rng.bool()),
                2 => set_out(g, l),
                3 => set_in(g, l, ch),
                4 => set_peer(g, p, ch, ad, l, d),
                5 => {
                    let x = *w.rng.pick(&[NTT, XCVR]);
                    let ch = if w.rng.bool() { w.rng.u64() as u16 } else { ch };
                    set_xpeer(x, g, p, ch, ad)
                }
                6 => {
                    let k = w.rng.key();
                    w.svm.deploy(k, None);
                    register(g, p, k)
                }
                _ => {
                    let o = w.owner();
                    let c = transfer_own(g, w.users[0], false);
                    if o == g {
                        claim(w.users[1]).with("new_owner", g)
                    } else {
                        c
                    }
                }
            };
            let accounts: Vec<(Pubkey, bool, bool)> = c
                .metas()
                .iter()
                .map(|m| {
                    let k = if m.pubkey == g {
                        Pubkey::new_from_array(GOV_OWNER)
                    } else if m.pubkey == payer {
                        Pubkey::new_from_array(GOV_PAYER)
                    } else {
                        m.pubkey
                    };
                    (k, m.is_signer, m.is_writable)
                })
                .collect();
            let extra = c.metas().into_iter().filter(|m| m.pubkey != g && m.pubkey != payer).collect();
            let (program, data) = (c.op.program(), c.op.data());
            inner = Some(Box::new(c));
            (program, accounts, data, extra)
        } else {
            let program = *w.rng.pick(&w.ext.clone());
            let n = match w.rng.below(8) {
                0 => 0,
                1 => 20,
                _ => w.rng.below(7),
            };
            let mut accounts = vec![];
            let mut extra: Vec<AccountMeta> = vec![];
            for _ in 0..n {
                let (s, wr) = (w.rng.chance(1, 3), w.rng.bool());
                let k = match w.rng.below(8) {
                    0 => Pubkey::new_from_array(GOV_OWNER),
                    1 => Pubkey::new_from_array(GOV_PAYER),
                    2 => gov(),
                    3 => {
                        let mut k = GOV_OWNER;
                        k[w.rng.usize(32)] ^= 1;
                        Pubkey::new_from_array(k)
                    }
                    4 => payer,
                    5 => w.rng.key(),
                    6 if !accounts.is_empty() => w.rng.pick::<(Pubkey, bool, bool)>(&accounts).0,
                    _ => w.user(),
                };
                accounts.push((k, s, wr));
                if k.to_bytes() != GOV_OWNER && k.to_bytes() != GOV_PAYER && k != gov() {
                    let give_s = s || w.rng.chance(1, 6);
                    extra.push(AccountMeta { pubkey: k, is_signer: give_s, is_writable: wr || w.rng.chance(1, 4) });
                }
            }
            let len = match w.rng.below(6) {
                0 => 0,
                1 => w.rng.below(700),
                _ => w.rng.below(40),
            };
            let mut data: Vec<u8> = (0..len).map(|_| w.rng.u64() as u8).collect();
            if data.first() == Some(&0xF0) {
                data[0] = 1;
            }
            (program, accounts, data, extra)
        };
        if w.rng.chance(1, 20) && !extra.is_empty() {
            let i = w.rng.usize(extra.len());
            extra.remove(i);
        }
        if w.rng.chance(1, 4) {
            extra.push(AccountMeta::new_readonly(w.user(), false));
        }
        // sometimes the target program is not in its slot but among the rest
        let mut pslot = program;
        if w.rng.chance(1, 6) {
            pslot = w.ext[0];
            extra.push(AccountMeta::new_readonly(program, false));
        }
        let m = GovMsg { gov: GOV, program, accounts, data };
        let mut payload = m.wire();
        let (mut chain, mut em, mut magic, mut own) = (1u16, GOV_EMITTER, *b"vaa", CORE_BRIDGE);
        w.seq += 1;
        let mut seq = match w.rng.below(12) {
            0 => w.seq << 8,
            1 => w.seq << 32,
            2 => 1 << 63 | w.seq,
            3 => u64::MAX - w.seq,
            4 => 1 << 48 | w.seq,
            _ => w.seq,
        };
        let mut note = "genuine";
        match w.rng.below(30) {
            0 => {
                chain = *w.rng.pick(&[0u16, 2, 256, 0x0101]);
                note = "another chain"
            }
            1 => {
                em = w.rng.bytes32();
                note = "another emitter"
            }
            2 => {
                em[w.rng.usize(32)] ^= 1;
                note = "emitter differs in one bit"
            }
            3 => {
                magic = *b"msg";
                note = "unverified message"
            }
            4 => {
                own = w.evil;
                note = "forged account"
            }
            5 => {
                payload[8 + w.rng.usize(24)] ^= 1;
                note = "another module"
            }
            6 => {
                payload[32] = *w.rng.pick(&[0u8, 1, 3, 255]);
                note = "another action"
            }
            7 => {
                let x = *w.rng.pick(&[0u16, 2, 256, 0xffff]);
                payload[33..35].copy_from_slice(&x.to_be_bytes());
                note = "another target chain"
            }
            8 => {
                let other = match w.rng.below(6) {
                    0 => [0u8; 32],
                    1 => NTT.to_bytes(),
                    2 => program.to_bytes(),
                    3 => gov().to_bytes(),
                    4 => w.rng.addr(),
                    _ => {
                        let mut g = GOV.to_bytes();
                        g[w.rng.usize(32)] ^= 1 << w.rng.below(8);
                        g
                    }
                };
                payload[35..67].copy_from_slice(&other);
                note = "another governance program"
            }
            9 => {
                let n = w.rng.usize(payload.len());
                payload.truncate(n);
                note = "truncated"
            }
            10 => {
                payload.push(1);
                note = "trailing byte"
            }
            11 if !m.accounts.is_empty() => {
                payload[35 + 64 + 2 + 32 + w.rng.usize(2)] = 2 + w.rng.below(250) as u8;
                note = "invalid flag"
            }
            12 | 13 => {
                if let Some(p) = posted.last() {
                    seq = p.0;
                    note = "sequence reused"
                }
            }
            14 | 15 => {
                if !posted.is_empty() {
                    // the same packet under a new sequence number
                    let p = w.rng.pick(&posted).clone();
                    let vk = post_gov(&mut w, p.5, p.6, seq, p.1.clone(), *b"vaa", CORE_BRIDGE);
                    let rk = gov_replay(p.5, &p.6, seq).0;
                    let mut c = governance(payer, vk, p.3, rk, p.2.clone());
                    // an inner call is only modelled for the payer it was made for
                    if p.4.is_none() {
                        c.note = "new sequence, same packet".into();
                        w.call(c);
                    }
                    continue;
                }
            }
            _ => {}
        }
        let vk = post_gov(&mut w, chain, em, seq, payload.clone(), magic, own);
        let rk = gov_replay(chain, &em, seq).0;
        let mut c = governance(payer, vk, pslot, rk, extra.clone());
        c.inner = inner.clone().map(|mut b| {
            // governance signs for its authority
            for s in b.slots.iter_mut() {
                if s.key == gov() {
                    s.s = s.s;
                }
            }
            b
        });
        c.note = note.into();
        if note == "genuine" {
            posted.push((seq, payload, extra, pslot, inner, chain, em));
        }
        if w.rng.chance(1, 20) && w.svm.lamports(&rk) == 0 {
            w.svm.set(rk, acct(77, vec![], SYSTEM));
        }
        calls.push(c.clone());
        if calls.len() > 12 {
            calls.remove(0);
        }
        let mutp = if c.inner.is_some() { 0 } else { 8 };
        w.go(c, mutp);
    }
    w.obs
}

// ------------------------------------------------------- two-chain histories

struct Flight {
    item: Pubkey,
    taken: u64,
    trimmed: (u64, u8),
    paid: u64,
    vaa: Option<Pubkey>,
    m: InMsg,
}

/// Two deployments that are each other's peer; every message one publishes is
/// delivered (repeatedly, late, reordered) to the other.
pub fn pair(seed: u64, verbose: bool) -> Obs {
    let mut r = Rng::new(seed);
    let pool = chain_pool(&mut r);
    let ids = [pool[0], pool[1]];
    let modes = match r.below(4) {
        0 => [0, 0],
        1 => [1, 1],
        _ => [0, 1],
    };
    let mut ws: Vec<World> = vec![];
    for i in 0..2 {
        let fl = *r.pick(&[Flavor::Spl, Flavor::T22, Flavor::Hook]);
        let dec = r.range(0, 15) as u8;
        let mut w = World::blank_with(Rng::new(r.u64()), verbose, fl, modes[i], dec);
        w.chain = ids[i];
        w.chains = vec![ids[1 - i]];
        w.spare = vec![pool[2]];
        ws.push(w);
    }
    let mut minted0 = [0u64; 2];
    let mut cust0 = [0u64; 2];
    for i in 0..2 {
        let (od, w) = (ws[1 - i].decimals, &mut ws[i]);
        if w.mode == 1 {
            w.give_mint_authority(token_authority());
        }
        let u = w.users.clone();
        let lim = w.limit_value();
        w.call(initialize(u[0], u[0], w.mint, w.tp, w.chain, lim, w.mode));
        let Some(cfg) = w.config() else { return std::mem::take(&mut ws[i].obs) };
        let m = w.mint;
        w.hist.start(&w.svm, &m, &cfg.custody);
        w.call(register(u[0], u[0], NTT));
        let lim = w.limit_value();
        w.call(set_peer(u[0], u[0], ids[1 - i], NTT.to_bytes(), lim, od));
        w.call(set_xpeer(NTT, u[0], u[0], ids[1 - i], emitter(&NTT).to_bytes()));
        // liquidity so that unlocking is possible
        let c = cfg.custody;
        for (t, o) in w.toks.clone() {
            let b = w.bal(&t);
            let before = w.bal(&c);
            if w.move_tokens(t, c, o, b / 3) {
                let d = w.bal(&c) - before;
                w.hist.donated(d);
            }
        }
        cust0[i] = w.bal(&c);
        minted0[i] = match parse(&w.svm.get(&w.mint)) {
            St::Mint(m) => m.supply,
            _ => 0,
        };
    }
    let mut fl: [Vec<Flight>; 2] = [vec![], vec![]];
    let n = r.range(30, 90);
    for _ in 0..n {
        let i = r.usize(2);
        if ws.iter().any(|w| w.obs.done()) {
            break;
        }
        match r.below(12) {
            0..=3 => {
                // send
                let tu = ws[1 - i].users[r.usize(5)];
                let (from, owner) = *r.pick(&ws[i].toks);
                let bal = ws[i].bal(&from);
                let amount = match r.below(5) {
                    0 => bal,
                    1 => r.below(1000),
                    _ => {
                        let sh = r.below(8);
                        r.below((bal >> sh).max(1))
                    }
                };
                let a = TArgs { amount, chain: ids[1 - i], to: tu.to_bytes(), queue: r.chance(4, 5) };
                ws[i].approve(from, owner, session(&owner, &a.digest()), amount);
                let item = ws[i].fresh();
                let p = ws[i].users[0];
                let cu = ws[i].config().unwrap().custody;
                let mut c = transfer(ws[i].mode == 1, a.clone(), p, ws[i].mint, from, owner, ws[i].tp, item, cu);
                if ws[i].flavor.hook() {
                    c.extra = ws[i].hook_extra(&owner);
                }
                let before = ws[i].bal(&from);
                if ws[i].call(c) {
                    let o = Outbox::parse(ws[i].svm.data(&item));
                    if let Some(o) = o {
                        let taken = before - ws[i].bal(&from);
                        fl[i].push(Flight {
                            item,
                            taken,
                            trimmed: (o.amount, o.decimals),
                            paid: 0,
                            vaa: None,
                            m: InMsg {
                                from: ids[i],
                                src: NTT.to_bytes(),
                                rcpt: NTT.to_bytes(),
                                msg: Msg { id: item.to_bytes(), sender: owner.to_bytes(), amount: o.amount, decimals: o.decimals, token: ws[i].mint.to_bytes(), to: a.to, to_chain: a.chain },
                            },
                        });
                    }
                }
            }
            4..=8 => {
                if fl[i].is_empty() {
                    continue;
                }
                let k = r.usize(fl[i].len());
                deliver(&mut ws, &mut fl, &mut r, i, k, ids);
            }
            9 => {
                let d = *r.pick(&[1, 100, 3600, DAY / 2, DAY]);
                for w in ws.iter_mut() {
                    w.svm.advance(d);
                }
            }
            10 => {
                let l = ws[i].limit_value();
                let o = ws[i].owner();
                if r.bool() {
                    ws[i].call(set_out(o, l));
                } else {
                    ws[i].call(set_in(o, l, ids[1 - i]));
                }
            }
            _ => {
                let o = ws[i].owner();
                let p = r.bool();
                ws[i].call(pause(o, p));
            }
        }
        check_pair(&mut ws, &fl);
    }
    // drain: everything becomes due and is delivered
    if ws.iter().all(|w| !w.obs.done()) {
        for i in 0..2 {
            let o = ws[i].owner();
            ws[i].call(pause(o, false));
        }
        for _ in 0..2 {
            for w in ws.iter_mut() {
                w.svm.advance(DAY);
            }
            for i in 0..2 {
                for k in 0..fl[i].len() {
                    deliver(&mut ws, &mut fl, &mut r, i, k, ids);
                }
            }
        }
        for w in ws.iter_mut() {
            w.svm.advance(DAY);
        }
        for i in 0..2 {
            for k in 0..fl[i].len() {
                deliver(&mut ws, &mut fl, &mut r, i, k, ids);
            }
        }
        check_pair(&mut ws, &fl);
        for i in 0..2 {
            for f in &fl[i] {
                let want = scale(f.trimmed.0, f.trimmed.1, ws[1 - i].decimals);
                // an amount the other side cannot represent, or a lack of liquidity, is not our affair
                let o = &ws[1 - i];
                let short = match (o.mode, want) {
                    (_, None) => true,
                    (0, Some(v)) => o.config().map_or(true, |c| o.bal(&c.custody) < v),
                    (_, Some(v)) => match parse(&o.svm.get(&o.mint)) {
                        St::Mint(m) => m.supply.checked_add(v).is_none(),
                        _ => true,
                    },
                };
                if want.is_some() && f.paid != want.unwrap() && !short {
                    ws[i].obs.violate(&["C04"], format!("drained: {} taken, {} paid, {want:?} expected", f.taken, f.paid));
                }
                ws[i].obs.saw("C04", format!("pair|drained|{}|m{:?}", if f.paid == 0 { "zero or undeliverable" } else { "paid" }, modes), || format!("{} taken on one chain, {} paid on the other", f.taken, f.paid));
            }
        }
        // backing: lock-and-mint pairs
        if modes == [0, 1] && ws.iter().all(|w| !w.obs.done()) {
            let c = ws[0].config().unwrap().custody;
            let locked = ws[0].bal(&c) as i128 - cust0[0] as i128;
            let supply = match parse(&ws[1].svm.get(&ws[1].mint)) {
                St::Mint(m) => m.supply as i128,
                _ => 0,
            };
            let mint = supply - minted0[1] as i128;
            // value still to be unlocked or undelivered
            let mut open: i128 = 0;
            let (d0, d1) = (ws[0].decimals as u32, ws[1].decimals as u32);
            let p = |n: u32| 10i128.pow(n);
            for f in &fl[0] {
                if f.paid == 0 {
                    open += f.taken as i128 * p(d1);
                }
            }
            let mut open1: i128 = 0;
            for f in &fl[1] {
                if f.paid == 0 {
                    open1 += f.taken as i128 * p(d0);
                }
            }
            // custody value = minted value + in flight to 1 + burned but not yet unlocked
            if locked * p(d1) != mint * p(d0) + open + open1 {
                ws[0].obs.violate(&["C04"], format!("backing: locked {locked}@{d0}, minted {mint}@{d1}, in flight {open} and {open1}"));
            }
            ws[0].obs.saw("C04", "pair|backing".into(), || format!("locked {locked}@{d0} backs {mint}@{d1}"));
        }
    }
    let mut obs = std::mem::take(&mut ws[0].obs);
    let o2 = std::mem::take(&mut ws[1].obs);
    let mut log = o2.log.clone();
    obs.log.push("---- second ledger".into());
    obs.log.append(&mut log);
    obs.merge(o2);
    obs
}

fn deliver(ws: &mut [World], fl: &mut [Vec<Flight>; 2], r: &mut Rng, i: usize, k: usize, ids: [u16; 2]) {
    let (item, m) = (fl[i][k].item, fl[i][k].m.clone());
    if fl[i][k].vaa.is_none() || r.chance(1, 10) {
        let p = ws[i].users[2];
        ws[i].call(release_out(NTT, r.bool(), p, item));
        let mk = wh_message(&NTT, &item);
        if let Some(mut p) = Posted::parse(ws[i].svm.data(&mk)) {
            // the guardians observe it on that chain
            p.magic = *b"vaa";
            p.chain = ids[i];
            let vk = r.key();
            let b = p.bytes();
            ws[1 - i].svm.set(vk, acct(rent_for(b.len()), b, CORE_BRIDGE));
            fl[i][k].vaa = Some(vk);
        }
    }
    let Some(vk) = fl[i][k].vaa else { return };
    let w = &mut ws[1 - i];
    let p = w.users[3];
    let vtm = xmsg(&NTT, ids[i], &m.msg.id);
    if w.svm.lamports(&vtm) == 0 || r.chance(1, 8) {
        w.call(receive(NTT, p, vk, ids[i], &m.msg.id));
    }
    let inbox = m.msg.inbox(ids[i]).0;
    if w.svm.lamports(&inbox) == 0 || r.chance(1, 6) {
        w.call(redeem(p, ids[i], vtm, &NTT, w.mint, inbox));
    }
    if w.svm.lamports(&inbox) == 0 {
        return;
    }
    let rec = ata(&Pubkey::new_from_array(m.msg.to), &w.mint, &w.tp);
    let cu = w.config().unwrap().custody;
    let mut c = release_in(w.mode == 1, r.bool(), p, inbox, rec, w.mint, w.tp, cu);
    if w.flavor.hook() {
        c.extra = w.hook_extra(&token_authority());
    }
    let b = w.bal(&rec);
    w.call(c);
    fl[i][k].paid += w.bal(&rec) - b;
}

/// What a chain paid for a message never exceeds what was taken for it.
fn check_pair(ws: &mut [World], fl: &[Vec<Flight>; 2]) {
    for i in 0..2 {
        let (da, db) = (ws[i].decimals as u32, ws[1 - i].decimals as u32);
        for f in &fl[i] {
            let taken = f.taken as u128 * 10u128.pow(db);
            let paid = f.paid as u128 * 10u128.pow(da);
            if paid > taken {
                ws[i].obs.violate(&["C04", "C02"], format!("{} taken at {da} decimals, {} paid at {db}", f.taken, f.paid));
            }
        }
    }
}

#[allow(unused)]
fn _unused(a: &mut solana_sdk::account::AccountSharedData) {
    a.set_lamports(1);
}
