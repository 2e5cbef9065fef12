//! Monitors of the message library: amounts, wire formats, governance packets.
//! The oracle is an independent encoder/decoder and exact integer arithmetic.
use crate::{rng::*, state::Msg, svm::quiet, world::Obs};
use anchor_lang::{AnchorDeserialize, AnchorSerialize};
use ntt_messages::{
    chain_id::ChainId,
    mode::Mode,
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::{TransceiverMessage, TransceiverMessageData, TransceiverMessageDataBytes},
    transceivers::wormhole::{WormholeTransceiver, WormholeTransceiverInfo, WormholeTransceiverRegistration},
    trimmed_amount::TrimmedAmount,
};
use solana_sdk::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
use std::io;
use wormhole_governance::instructions::{Acc, GovernanceMessage};
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

fn pow10(n: u32) -> Option<u128> {
    10u128.checked_pow(n)
}

/// `a` with `from` decimals expressed with `to` decimals, rounded down;
/// `None` when it does not fit in 64 bits.
fn exact(a: u64, from: u8, to: u8) -> Option<u64> {
    if from >= to {
        Some(pow10((from - to) as u32).map_or(0, |p| (a as u128 / p) as u64))
    } else if a == 0 {
        Some(0)
    } else {
        let p = pow10((to - from) as u32)?;
        u64::try_from((a as u128).checked_mul(p)?).ok()
    }
}

fn dec(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=5 => r.range(0, 12) as u8,
        6 | 7 => r.range(0, 30) as u8,
        8 => *r.pick(&[7u8, 8, 9, 17, 18, 19, 20, 21, 27, 28, 29, 38, 39, 255]),
        _ => r.u64() as u8,
    }
}

fn amt(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.u64() >> r.below(64),
        1 => u64::MAX - r.below(100),
        2 => r.below(100),
        3 | 4 => {
            // around multiples of powers of ten
            let p = 10u64.pow(r.below(20) as u32);
            let k = r.below(u64::MAX / p);
            (k * p).wrapping_add(r.below(3)).wrapping_sub(1)
        }
        5 => {
            // largest amount that still fits after scaling, and its neighbours
            let p = 10u64.pow(r.below(20) as u32);
            (u64::MAX / p).wrapping_add(r.below(3)).wrapping_sub(1)
        }
        _ => r.amount(),
    }
}

/// Scale by 10^20 and more is reported as an overflow even where the result
/// would be zero: refusing it is allowed, anything else is not.
fn agree(got: Option<Result<u64, ()>>, from: u8, to: u8, a: u64, what: &str, o: &mut Obs) {
    let want = exact(a, from, to);
    let wide = from.abs_diff(to) >= 20;
    let ok = match got {
        None => false,
        Some(Ok(x)) => want == Some(x),
        Some(Err(())) => want.is_none() || wide,
    };
    if !ok {
        let g = match got {
            None => "a crash".into(),
            Some(Ok(x)) => format!("{x}"),
            Some(Err(())) => "an error".into(),
        };
        o.violate(&["C20"], format!("{what}({a} at {from} decimals -> {to}): expected {want:?}, got {g}"));
    }
    let class = match (want, wide) {
        (_, true) => "too wide",
        (None, _) => "overflow",
        (Some(0), _) if a != 0 => "to zero",
        (Some(x), _) if from > to && exact(x, to, from) != Some(a) => "dust",
        _ => "exact",
    };
    o.saw("C20", format!("{what}|{from}->{to}|{class}"), || format!("{what}({a}, {from} -> {to}) = {want:?}"));
}

pub fn amounts(seed: u64, _v: bool) -> Obs {
    let mut r = Rng::new(seed);
    let mut o = Obs::default();
    for _ in 0..4000 {
        o.steps += 1;
        let (a, f, t) = (amt(&mut r), dec(&mut r), dec(&mut r));
        let td = 8.min(f).min(t);
        // trim
        let g = quiet(|| TrimmedAmount::trim(a, f, t).map_err(|_| ()));
        agree(g.map(|x| x.map(|y| y.amount)), f, td, a, "trim", &mut o);
        if let Some(Ok(x)) = g {
            if x.decimals != td || x.amount() != x.amount {
                o.violate(&["C20"], format!("trim({a}, {f}, {t}) has {} decimals", x.decimals));
            }
        }
        // remove dust
        let mut b = a;
        let g = quiet(|| TrimmedAmount::remove_dust(&mut b, f, t).map_err(|_| ()));
        agree(g.map(|x| x.map(|y| y.amount)), f, td, a, "remove_dust", &mut o);
        match g {
            Some(Ok(x)) => {
                let want = exact(x.amount, td, f);
                if x.decimals != td || want != Some(b) || b > a || (f as i32 - td as i32 <= 19 && a - b >= 10u64.pow((f - td) as u32).max(1)) {
                    o.violate(&["C20"], format!("remove_dust({a}, {f}, {t}): left {b} and {}@{}", x.amount, x.decimals));
                }
            }
            Some(Err(())) if b != a => o.violate(&["C20"], format!("remove_dust({a}, {f}, {t}) failed and left {b}")),
            _ => {}
        }
        // untrim: any amount and decimals can arrive in a message
        let x = TrimmedAmount::new(a, f);
        let g = quiet(|| x.untrim(t).map_err(|_| ()));
        agree(g, f, t, a, "untrim", &mut o);
        let g = quiet(|| x.change_decimals(t).map_err(|_| ()));
        agree(g.map(|x| x.map(|y| y.amount)), f, t, a, "change_decimals", &mut o);
        if let Some(Ok(y)) = g {
            if y.decimals != t {
                o.violate(&["C20"], format!("change_decimals({t}) has {} decimals", y.decimals));
            }
        }
        // there and back: value never grows across chains
        if let Some(Some(y)) = quiet(|| TrimmedAmount::trim(a, f, t).ok().and_then(|x| x.untrim(t).ok())) {
            // y at t decimals must not be worth more than a at f decimals
            let m = f.max(t) as u32;
            if m <= 19 {
                let (va, vy) = (a as u128 * 10u128.pow(m - f as u32), y as u128 * 10u128.pow(m - t as u32));
                if vy > va {
                    o.violate(&["C20", "C04"], format!("{a}@{f} became {y}@{t}"));
                }
                o.saw("C20", format!("cross|{f}->{t}|{}", if va == vy { "equal" } else { "dust" }), || format!("{a}@{f} -> {y}@{t}"));
            }
        }
        o.accepted += 1;
        if o.violations.len() > 3 {
            break;
        }
    }
    o
}

// ---------------------------------------------------------------- wire formats

/// A payload of arbitrary length and content.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blob(Vec<u8>);
thread_local! { static BLOB: std::cell::Cell<usize> = Default::default(); }
impl anchor_lang::Space for Blob {
    const INIT_SPACE: usize = 0;
}
impl TypePrefixedPayload for Blob {
    const TYPE: Option<u8> = None;
}
impl Readable for Blob {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
        let mut v = vec![0; BLOB.with(|b| b.get())];
        reader.read_exact(&mut v)?;
        Ok(Blob(v))
    }
}
impl Writeable for Blob {
    fn written_size(&self) -> usize {
        self.0.len()
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.0)
    }
}

/// Announced size, encoding, and whether it decodes to an equal value (and only from all of it).
fn part<T: Readable + Writeable>(v: &T, eq: impl Fn(&T) -> bool) -> (usize, Vec<u8>, bool) {
    let mut b = vec![];
    let ok = v.write(&mut b).is_ok();
    let mut s = &b[..];
    let back = T::read(&mut s).map_or(false, |y| eq(&y)) && s.is_empty();
    let cut = (0..b.len()).all(|n| T::read(&mut &b[..n]).is_err());
    (v.written_size(), b.clone(), ok && back && cut)
}

/// A reader that hands out one byte at a time and counts them.
struct Dribble<'a>(&'a [u8], usize);
impl io::Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 >= self.0.len() || b.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}

fn blob(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(max + 1),
        _ => r.below(40.min(max) + 1),
    };
    (0..n).map(|_| r.u64() as u8).collect()
}

fn msg(r: &mut Rng) -> Msg {
    let z = |r: &mut Rng| match r.below(8) {
        0 => [0u8; 32],
        1 => [0xff; 32],
        _ => r.bytes32(),
    };
    Msg { id: z(r), sender: z(r), amount: if r.bool() { r.u64() } else { amt(r) }, decimals: r.u64() as u8, token: z(r), to: z(r), to_chain: if r.chance(1, 6) { *r.pick(&[0, 1, 255, 256, 0xffff]) } else { r.u64() as u16 } }
}

fn real<A: ntt_messages::utils::maybe_space::MaybeSpace>(m: &Msg, a: A) -> NttManagerMessage<NativeTokenTransfer<A>> {
    NttManagerMessage {
        id: m.id,
        sender: m.sender,
        payload: NativeTokenTransfer { amount: TrimmedAmount { amount: m.amount, decimals: m.decimals }, source_token: m.token, to_chain: ChainId { id: m.to_chain }, to: m.to, additional_payload: a },
    }
}

fn same<A: ntt_messages::utils::maybe_space::MaybeSpace + PartialEq>(m: &Msg, x: &NttManagerMessage<NativeTokenTransfer<A>>, a: &A) -> bool {
    let p = &x.payload;
    x.id == m.id && x.sender == m.sender && p.amount.amount == m.amount && p.amount.decimals == m.decimals && p.source_token == m.token && p.to_chain.id == m.to_chain && p.to == m.to && p.additional_payload == *a
}

/// Independent encoding of the manager message with an additional payload.
fn wire_with(m: &Msg, extra: &[u8]) -> Vec<u8> {
    let mut t = m.wire()[66..].to_vec();
    t.extend_from_slice(&(extra.len() as u16).to_be_bytes());
    t.extend_from_slice(extra);
    let mut v = m.wire()[..64].to_vec();
    v.extend_from_slice(&(t.len() as u16).to_be_bytes());
    v.extend(t);
    v
}

/// Check one message type on one value: exact layout, round trip, truncation, prefix.
fn wire_case<T: TypePrefixedPayload>(kind: &'static str, tags: &[&'static str], v: &T, want: &[u8], eq: &dyn Fn(&T) -> bool, magic: &[usize], r: &mut Rng, o: &mut Obs) {
    o.steps += 1;
    let p0 = tags[0];
    let saw = |o: &mut Obs, s: &str| {
        o.saw(p0, format!("{kind}|{s}|{}", want.len() / 16), || format!("{kind} of {} bytes: {s}", want.len()));
    };
    match quiet(|| {
        let mut b = vec![];
        let r = v.write_payload(&mut b);
        (r.is_ok(), b, v.to_vec_payload())
    }) {
        Some((true, b, b2)) if b == want && b2 == want => saw(o, "layout"),
        None => o.violate(tags, format!("encoding {kind} crashed: {v:?}")),
        Some((_, b, _)) => o.violate(tags, format!("{kind} {v:?}: encoded {} expected {}", hex(&b), hex(want))),
    }
    match quiet(|| v.written_size()) {
        Some(n) if n == want.len() => saw(o, "announced size"),
        n => o.violate(tags, format!("{kind} of {} bytes announces a size of {n:?}", want.len())),
    }
    // decode, in one go and byte by byte, with and without something behind it
    for mode in 0..3 {
        let mut buf = want.to_vec();
        let tail = if mode == 2 { 1 + r.usize(9) } else { 0 };
        buf.extend((0..tail).map(|_| r.u64() as u8));
        let got = quiet(|| {
            if mode == 1 {
                let mut d = Dribble(&buf, 0);
                let x = T::read_payload(&mut d);
                (x, buf.len() - d.1)
            } else {
                let mut s = &buf[..];
                let x = T::read_payload(&mut s);
                (x, s.len())
            }
        });
        match got {
            Some((Ok(x), left)) if eq(&x) && left == tail => saw(o, "round trip"),
            None => o.violate(tags, format!("decoding {kind} crashed on {}", hex(&buf))),
            Some((x, left)) => o.violate(tags, format!("{kind} {}: decoded {x:?}, {left} bytes left of {tail}", hex(&buf))),
        }
    }
    // truncation
    let cuts: Vec<usize> = if want.len() <= 300 { (0..want.len()).collect() } else { (0..40).map(|_| r.usize(want.len())).collect() };
    for n in cuts {
        match quiet(|| T::read_payload(&mut &want[..n]).is_ok()) {
            Some(false) => saw(o, "truncated"),
            Some(true) => o.violate(tags, format!("{kind} truncated to {n} of {} bytes accepted", want.len())),
            None => o.violate(tags, format!("{kind} truncated to {n} of {} bytes crashed", want.len())),
        }
    }
    // identifying bytes
    for m in magic {
        let mut b = want.to_vec();
        b[*m] ^= 1 << r.below(8);
        match quiet(|| T::read_payload(&mut &b[..]).is_ok()) {
            Some(false) => saw(o, "wrong prefix"),
            Some(true) => o.violate(tags, format!("{kind} with byte {m} changed accepted: {}", hex(&b))),
            None => o.violate(tags, format!("{kind} with byte {m} changed crashed: {}", hex(&b))),
        }
    }
    if magic.len() == 4 {
        // the prefix of any other message, and near misses
        for p in [[0x99, 0x45, 0xff, 0x10], [0x99, 0x4e, 0x54, 0x54], [0x9c, 0x23, 0xbd, 0x3b], [0x18, 0xfc, 0x67, 0xc2], [0; 4], [0xff; 4]] {
            let mut b = want.to_vec();
            let at = magic[0];
            if b[at..at + 4] == p {
                b[at..at + 4].reverse();
            } else {
                b[at..at + 4].copy_from_slice(&p);
            }
            match quiet(|| T::read_payload(&mut &b[..]).is_ok()) {
                Some(false) => saw(o, "another prefix"),
                Some(true) => o.violate(tags, format!("{kind} with prefix {} accepted: {}", hex(&p), hex(&b))),
                None => o.violate(tags, format!("{kind} with prefix {} crashed: {}", hex(&p), hex(&b))),
            }
        }
    }
    // garbage: no crash, and whatever is accepted is stable
    for _ in 0..3 {
        let mut b = want.to_vec();
        for _ in 0..r.range(1, 4) {
            let i = r.usize(b.len());
            b[i] = *r.pick(&[0, 0xff, 1, 0x80]);
        }
        if r.bool() {
            let n = r.usize(b.len() + 1);
            b.truncate(n);
        }
        match quiet(|| match T::read_payload(&mut &b[..]) {
            Ok(x) => {
                let e = x.to_vec_payload();
                match T::read_payload(&mut &e[..]) {
                    Ok(y) => y.to_vec_payload() == e,
                    Err(_) => false,
                }
            }
            Err(_) => true,
        }) {
            Some(true) => saw(o, "garbage"),
            Some(false) => o.violate(tags, format!("{kind}: {} decodes to something unstable", hex(&b))),
            None => o.violate(tags, format!("{kind}: {} crashes", hex(&b))),
        }
    }
    o.accepted += 1;
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn wire(seed: u64, _v: bool) -> Obs {
    const T: &[&str] = &["C19"];
    let mut r = Rng::new(seed);
    let mut o = Obs::default();
    for _ in 0..12 {
        let m = msg(&mut r);
        let e = EmptyPayload {};
        // manager message
        let x = real(&m, e.clone());
        let w = m.wire();
        wire_case("manager message", T, &x, &w, &|y| same(&m, y, &EmptyPayload {}), &[66, 67, 68, 69], &mut r, &mut o);
        // the transfer alone
        wire_case("transfer", T, &x.payload, &w[66..], &|y| same(&m, &NttManagerMessage { id: m.id, sender: m.sender, payload: y.clone() }, &EmptyPayload {}), &[0, 1, 2, 3], &mut r, &mut o);
        // the parts, on their own
        let ch = ChainId { id: m.to_chain };
        let ta = TrimmedAmount { amount: m.amount, decimals: m.decimals };
        let mo = if m.amount % 2 == 0 { Mode::Locking } else { Mode::Burning };
        let parts: [(&str, Option<(usize, Vec<u8>, bool)>, Vec<u8>); 3] = [
            ("chain id", quiet(|| part(&ch, |y: &ChainId| y.id == m.to_chain)), m.to_chain.to_be_bytes().to_vec()),
            ("amount", quiet(|| part(&ta, |y: &TrimmedAmount| (y.amount, y.decimals) == (m.amount, m.decimals))), {
                let mut b = vec![m.decimals];
                b.extend_from_slice(&m.amount.to_be_bytes());
                b
            }),
            ("mode", quiet(|| part(&mo, |y: &Mode| *y == mo)), vec![(m.amount % 2) as u8]),
        ];
        for (k, got, want) in parts {
            match got {
                Some((n, b, true)) if b == want && n == want.len() => {}
                g => o.violate(T, format!("{k} of {m:?}: {g:?}, expected {}", hex(&want))),
            }
            o.saw("C19", format!("part|{k}"), || format!("{k} {}", hex(&want)));
        }
        // equality of messages (same decimals)
        let mut y = x.clone();
        let f = r.below(6);
        match f {
            0 => y.id[r.usize(32)] ^= 1 << r.below(8),
            1 => y.sender[r.usize(32)] ^= 1 << r.below(8),
            2 => y.payload.amount.amount ^= 1 << r.below(64),
            3 => y.payload.source_token[r.usize(32)] ^= 1 << r.below(8),
            4 => y.payload.to[r.usize(32)] ^= 1 << r.below(8),
            _ => y.payload.to_chain.id ^= 1 << r.below(16),
        }
        let z = x.clone();
        if quiet(|| x == z && z == x && x != y && y != x) != Some(true) {
            o.violate(T, format!("equality of {x:?} and {y:?}"));
        }
        o.saw("C19", format!("equality|{f}"), || format!("{} differs in field {f}", hex(&w)));
        // digest
        let ch = r.u64() as u16;
        if quiet(|| x.keccak256(ChainId { id: ch }).0) != Some(m.digest(ch)) {
            o.violate(&["C19", "C02", "C07", "C23"], format!("digest of {m:?} from chain {ch}"));
        }
        o.saw("C19", format!("digest|{}", ch % 16), || format!("digest of {} from {ch}", hex(&w)));
        // anchor form of the stored message
        let d = TransceiverMessageData { source_ntt_manager: r.bytes32(), recipient_ntt_manager: r.bytes32(), ntt_manager_payload: x.clone() };
        let mut b = vec![];
        if quiet(|| d.serialize(&mut b).is_ok()) == Some(true) {
            let p = quiet(|| {
                let p = TransceiverMessageDataBytes::<NativeTokenTransfer<EmptyPayload>>::parse(&b);
                let back = TransceiverMessageData::<NativeTokenTransfer<EmptyPayload>>::deserialize(&mut &b[..]).ok();
                p.source_ntt_manager() == d.source_ntt_manager && p.recipient_ntt_manager() == d.recipient_ntt_manager && same(&m, &p.ntt_manager_payload(), &EmptyPayload {}) && p.as_ref() == &b[..] && back.map_or(false, |y| same(&m, &y.ntt_manager_payload, &EmptyPayload {}) && y.source_ntt_manager == d.source_ntt_manager && y.recipient_ntt_manager == d.recipient_ntt_manager)
            });
            if p != Some(true) {
                o.violate(&["C19"], format!("stored form of {m:?} does not read back"));
            }
            o.saw("C19", "stored form".into(), || hex(&b));
        } else {
            o.violate(&["C19"], format!("stored form of {m:?} cannot be written"));
        }
        // transceiver message
        let (s, t) = (r.bytes32(), r.bytes32());
        let tp = blob(&mut r, if m.amount % 97 == 0 { 65535 } else { 400 });
        let x = TransceiverMessage::<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>>::new(s, t, real(&m, e), tp.clone());
        let w = m.transceiver_wire(&s, &t, &tp);
        let eq = |y: &TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>>| y.source_ntt_manager == s && y.recipient_ntt_manager == t && y.transceiver_payload == tp && same(&m, &y.ntt_manager_payload, &EmptyPayload {});
        wire_case("transceiver message", T, &x, &w, &eq, &[0, 1, 2, 3, 136, 137], &mut r, &mut o);
        anchor_case("transceiver message", &x, &w, &eq, &mut o);
        // the same with a non-empty additional payload
        let a = blob(&mut r, if m.amount % 89 == 0 { 60000 } else { 300 });
        BLOB.with(|b| b.set(a.len()));
        let bl = Blob(a.clone());
        let x = real(&m, bl.clone());
        let w = wire_with(&m, &a);
        wire_case("manager message with payload", T, &x, &w, &|y| same(&m, y, &bl), &[66, 67, 68, 69], &mut r, &mut o);
        if quiet(|| x.keccak256(ChainId { id: ch }).0) != Some({
            let mut v = ch.to_be_bytes().to_vec();
            v.extend_from_slice(&w);
            solana_sdk::keccak::hash(&v).to_bytes()
        }) {
            o.violate(&["C19", "C02", "C07", "C23"], format!("digest of {} from chain {ch}", hex(&w)));
        }
        let x = TransceiverMessage::<WormholeTransceiver, NativeTokenTransfer<Blob>>::new(s, t, x, tp.clone());
        let mut tw = m.transceiver_wire(&s, &t, &tp)[..68].to_vec();
        tw.extend_from_slice(&(w.len() as u16).to_be_bytes());
        tw.extend_from_slice(&w);
        tw.extend_from_slice(&(tp.len() as u16).to_be_bytes());
        tw.extend_from_slice(&tp);
        wire_case("transceiver message with payload", T, &x, &tw, &|y| y.source_ntt_manager == s && y.recipient_ntt_manager == t && y.transceiver_payload == tp && same(&m, &y.ntt_manager_payload, &bl), &[0, 1, 2, 3], &mut r, &mut o);
        // a bare manager message with an opaque payload
        let x = NttManagerMessage { id: m.id, sender: m.sender, payload: bl.clone() };
        let mut w = m.wire()[..64].to_vec();
        w.extend_from_slice(&(a.len() as u16).to_be_bytes());
        w.extend_from_slice(&a);
        wire_case("opaque manager message", T, &x, &w, &|y| y.id == m.id && y.sender == m.sender && y.payload == bl, &[], &mut r, &mut o);
        // info
        let md = r.below(2) as u8;
        let x = WormholeTransceiverInfo { manager_address: s, manager_mode: if md == 0 { Mode::Locking } else { Mode::Burning }, token_address: t, token_decimals: m.decimals };
        let mut w = vec![0x9c, 0x23, 0xbd, 0x3b];
        w.extend_from_slice(&s);
        w.push(md);
        w.extend_from_slice(&t);
        w.push(m.decimals);
        let eq = |y: &WormholeTransceiverInfo| *y == x;
        wire_case("info", &["C19", "C26"], &x, &w, &eq, &[0, 1, 2, 3], &mut r, &mut o);
        anchor_case("info", &x, &w, &eq, &mut o);
        for bad in [2u8, 3, 255, 128, r.range(2, 255) as u8] {
            w[36] = bad;
            if quiet(|| WormholeTransceiverInfo::read_payload(&mut &w[..]).is_err()) != Some(true) || quiet(|| Mode::read(&mut &[bad][..]).is_err()) != Some(true) {
                o.violate(&["C19"], format!("mode {bad} accepted"));
            }
            o.saw("C19", format!("mode|{}", bad / 16), || format!("mode {bad}"));
        }
        // registration
        let x = WormholeTransceiverRegistration { chain_id: ChainId { id: m.to_chain }, transceiver_address: s };
        let mut w = vec![0x18, 0xfc, 0x67, 0xc2];
        w.extend_from_slice(&m.to_chain.to_be_bytes());
        w.extend_from_slice(&s);
        let eq = |y: &WormholeTransceiverRegistration| *y == x;
        wire_case("registration", &["C19", "C26"], &x, &w, &eq, &[0, 1, 2, 3], &mut r, &mut o);
        anchor_case("registration", &x, &w, &eq, &mut o);
        if o.violations.len() > 3 {
            break;
        }
    }
    o
}

fn anchor_case<T: AnchorSerialize + AnchorDeserialize>(kind: &'static str, v: &T, want: &[u8], eq: &dyn Fn(&T) -> bool, o: &mut Obs) {
    let mut b = vec![];
    let ok = quiet(|| v.serialize(&mut b).is_ok()) == Some(true) && b == want && quiet(|| T::deserialize(&mut &want[..]).map_or(false, |y| eq(&y))) == Some(true) && quiet(|| want.is_empty() || T::deserialize(&mut &want[..want.len() - 1]).is_err()) == Some(true);
    if !ok {
        o.violate(&["C19"], format!("{kind} through anchor: {} expected {}", hex(&b), hex(want)));
    }
    o.saw("C19", format!("{kind}|anchor"), || hex(want));
}

// ---------------------------------------------------------------- governance packets

fn gov_wire(g: &Pubkey, p: &Pubkey, accs: &[(Pubkey, bool, bool)], data: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 8];
    v.extend_from_slice(b"GeneralPurposeGovernance");
    v.push(2);
    v.extend_from_slice(&1u16.to_be_bytes());
    v.extend_from_slice(g.as_ref());
    v.extend_from_slice(p.as_ref());
    v.extend_from_slice(&(accs.len() as u16).to_be_bytes());
    for (k, s, w) in accs {
        v.extend_from_slice(k.as_ref());
        v.push(*s as u8);
        v.push(*w as u8);
    }
    v.extend_from_slice(&(data.len() as u16).to_be_bytes());
    v.extend_from_slice(data);
    v
}

pub fn packets(seed: u64, _v: bool) -> Obs {
    const T: &[&str] = &["C31"];
    let mut r = Rng::new(seed);
    let mut o = Obs::default();
    for round in 0..40 {
        o.steps += 1;
        let n = match r.below(40) {
            0 if round == 0 => 65535,
            1 => 256 + r.usize(3),
            2 => 300 + r.usize(700),
            3..=6 => 0,
            _ => r.usize(20),
        };
        let dl = match r.below(30) {
            0 => 65535,
            1 => 255 + r.usize(3),
            2 => r.usize(5000),
            3..=6 => 0,
            _ => r.usize(60),
        };
        let (g, p) = (if r.chance(2, 3) { wormhole_governance::ID } else { r.key() }, r.key());
        let accs: Vec<(Pubkey, bool, bool)> = (0..n)
            .map(|_| {
                let k = match r.below(8) {
                    0 => sentinel(b"owner"),
                    1 => sentinel(b"payer"),
                    _ => r.key(),
                };
                (k, r.bool(), r.bool())
            })
            .collect();
        let data: Vec<u8> = (0..dl).map(|_| r.u64() as u8).collect();
        let w = gov_wire(&g, &p, &accs, &data);
        let sig = format!("n{}d{}", n.min(3) + (n > 255) as usize, dl.min(3) + (dl > 255) as usize);
        let mk = || GovernanceMessage { governance_program_id: g, program_id: p, accounts: accs.iter().map(|(k, s, w)| Acc { pubkey: *k, is_signer: *s, is_writable: *w }).collect(), data: data.clone() };
        let m = mk();
        let mut b = vec![];
        let mut body = vec![];
        match quiet(|| Writeable::write(&m, &mut b).is_ok() && m.write_body(&mut body).is_ok()) {
            Some(true) if b == w && body == w[67..] => o.saw("C31", format!("layout|{sig}"), || format!("{n} accounts, {dl} bytes")),
            _ => o.violate(T, format!("packet with {n} accounts and {dl} bytes is encoded as {} expected {}", cut(&b), cut(&w))),
        }
        match quiet(|| m.written_size()) {
            Some(s) if s == w.len() => o.saw("C31", format!("announced size|{sig}"), || format!("{n} accounts, {dl} bytes")),
            s => o.violate(T, format!("packet with {n} accounts and {dl} bytes announces {s:?} bytes, has {}", w.len())),
        }
        let mut b = vec![];
        if quiet(|| m.serialize(&mut b).is_ok()) != Some(true) || b != w {
            o.violate(T, format!("packet with {n} accounts and {dl} bytes through anchor: {}", cut(&b)));
        }
        let eq = |x: &GovernanceMessage| x.governance_program_id == g && x.program_id == p && x.data == data && x.accounts.len() == n && x.accounts.iter().zip(&accs).all(|(a, (k, s, w))| a.pubkey == *k && a.is_signer == *s && a.is_writable == *w);
        let tail = r.usize(4);
        let mut buf = w.clone();
        buf.extend(vec![0x5a; tail]);
        let ok = quiet(|| {
            let mut s = &buf[..];
            let a = <GovernanceMessage as Readable>::read(&mut s).map_or(false, |x| eq(&x)) && s.len() == tail;
            let mut s = &buf[..];
            let c = GovernanceMessage::deserialize(&mut s).map_or(false, |x| eq(&x)) && s.len() == tail;
            let mut d = Dribble(&buf, 0);
            let e = <GovernanceMessage as Readable>::read(&mut d).map_or(false, |x| eq(&x)) && buf.len() - d.1 == tail;
            let f = GovernanceMessage::read_body(&mut &w[67..], g).map_or(false, |x| eq(&x));
            a && c && e && f
        });
        if ok != Some(true) {
            o.violate(T, format!("packet with {n} accounts and {dl} bytes does not decode to what was encoded: {}", cut(&w)));
        }
        o.saw("C31", format!("round trip|{sig}"), || format!("{n} accounts, {dl} bytes"));
        // to and from the instruction
        if g == wormhole_governance::ID {
            let ok = quiet(|| {
                let i: Instruction = mk().into();
                let fwd = i.program_id == p && i.data == data && i.accounts.len() == n && i.accounts.iter().zip(&accs).all(|(a, (k, s, w))| a.pubkey == *k && a.is_signer == *s && a.is_writable == *w);
                let i = Instruction { program_id: p, accounts: accs.iter().map(|(k, s, w)| AccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }).collect(), data: data.clone() };
                fwd && eq(&GovernanceMessage::from(i))
            });
            if ok != Some(true) {
                o.violate(T, format!("packet with {n} accounts and {dl} bytes does not convert to its instruction"));
            }
            o.saw("C31", format!("instruction|{sig}"), || format!("{n} accounts, {dl} bytes"));
        }
        // malformed: header
        for i in 0..35 {
            let mut b = w.clone();
            b[i] = match r.below(3) {
                0 => b[i] ^ (1 << r.below(8)),
                1 => b[i].wrapping_add(1 + r.below(255) as u8),
                _ => if b[i] == 0 { 0xff } else { 0 },
            };
            match quiet(|| <GovernanceMessage as Readable>::read(&mut &b[..]).is_err()) {
                Some(true) => o.saw("C31", format!("header {i}"), || format!("byte {i} = {}", b[i])),
                _ => o.violate(&["C31", "C30"], format!("packet with header byte {i} = {:#x} accepted (or crashed)", b[i])),
            }
        }
        for act in [0u8, 1, 3, 255, r.range(3, 255) as u8] {
            let mut b = w.clone();
            b[32] = act;
            if quiet(|| <GovernanceMessage as Readable>::read(&mut &b[..]).is_err()) != Some(true) {
                o.violate(&["C31", "C30"], format!("packet with action {act} accepted (or crashed)"));
            }
            o.saw("C31", format!("action|{}", act / 32), || format!("action {act}"));
        }
        // flags that are neither 0 nor 1
        if n > 0 {
            let i = r.usize(n);
            let at = 35 + 32 + 32 + 2 + i * 34 + 32 + r.usize(2);
            let mut b = w.clone();
            b[at] = r.range(2, 255) as u8;
            if quiet(|| <GovernanceMessage as Readable>::read(&mut &b[..]).is_err()) != Some(true) {
                o.violate(T, format!("account flag {} accepted (or crashed)", b[at]));
            }
            o.saw("C31", format!("bad flag|{}", n.min(4)), || format!("flag {}", b[at]));
        }
        // truncation
        for _ in 0..20 {
            let cutat = if r.bool() { r.usize(w.len()) } else { w.len() - 1 - r.usize(w.len().min(40)) };
            match quiet(|| <GovernanceMessage as Readable>::read(&mut &w[..cutat]).is_err()) {
                Some(true) => o.saw("C31", format!("truncated|{}", cutat.min(140) / 4), || format!("{cutat} of {} bytes", w.len())),
                _ => o.violate(T, format!("packet truncated to {cutat} of {} bytes accepted (or crashed)", w.len())),
            }
        }
        // lengths that lie
        let mut b = w.clone();
        let at = 35 + 64;
        let claimed = r.u64() as u16;
        b[at..at + 2].copy_from_slice(&claimed.to_be_bytes());
        if quiet(|| {
            let _ = <GovernanceMessage as Readable>::read(&mut &b[..]);
        })
        .is_none()
        {
            o.violate(T, format!("packet claiming {claimed} accounts crashes"));
        }
        o.accepted += 1;
        if o.violations.len() > 3 {
            break;
        }
    }
    // more than fits is an error, not a wrapped length
    if seed % 16 == 0 {
        for (n, dl) in [(65536usize, 0usize), (0, 65536), (1, 70000)] {
            let m = GovernanceMessage { governance_program_id: wormhole_governance::ID, program_id: r.key(), accounts: vec![Acc { pubkey: Pubkey::default(), is_signer: false, is_writable: false }; n], data: vec![0; dl] };
            if quiet(|| Writeable::write(&m, &mut vec![]).is_err()) != Some(true) {
                o.violate(T, format!("packet with {n} accounts and {dl} bytes encoded"));
            }
            o.saw("C31", format!("too long|{n}|{dl}"), || format!("{n} accounts, {dl} bytes"));
        }
    }
    o
}

fn cut(b: &[u8]) -> String {
    hex(&b[..b.len().min(200)])
}

fn sentinel(s: &[u8]) -> Pubkey {
    let mut b = [0; 32];
    b[..s.len()].copy_from_slice(s);
    Pubkey::new_from_array(b)
}
