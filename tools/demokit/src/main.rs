#![allow(dead_code, unused_imports)]
mod ix;
mod keys;
mod kit;
mod state;
mod svm;
use kit::*;

fn main() {
    let mut k = K::new(LOCK, 9, 1_000_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let u = k.user;
    let it = k.send(u, 1_234_567_891, 2, [5; 32], false);
    expect(it.is_ok(), "send");
    let p = k.publish(NTT, it.unwrap(), true);
    expect(p.unwrap().is_some(), "published");
    let ua = k.ata(u);
    let m = k.msg(5, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    let ib = k.redeem(NTT, 2, &m).unwrap();
    let b = k.bal(&ua);
    k.release(ib, ua, true).unwrap();
    expect(k.bal(&ua) == b + 50, "released");
}
