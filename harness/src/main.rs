mod check;
mod hist;
mod ix;
mod keys;
#[cfg(feature = "library")]
mod pure;
mod rng;
mod scen;
mod spec;
mod state;
mod svm;
mod world;

use serde_json::json;
use std::{
    collections::BTreeMap,
    path::Path,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
    time::Instant,
};
use world::Obs;

const ALL: [&str; 35] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35",
];

/// Scenarios and their number of episodes (quick tier) for a property.
fn plan(p: &str) -> Vec<(&'static str, u64)> {
    match p {
        "C02" => vec![("general", 3000), ("voting", 6000), ("pair", 800), ("wire", 200)],
        "C03" => vec![("general", 3500), ("voting", 5000), ("pair", 800)],
        "C04" => vec![("general", 2500), ("pair", 3000), ("amounts", 200)],
        "C06" => vec![("general", 4000), ("voting", 3000)],
        "C07" | "C23" => vec![("general", 3000), ("voting", 8000), ("registry", 500), ("quorum", 1500), ("wire", 200)],
        "C09" | "C11" => vec![("general", 4000), ("voting", 3000), ("pair", 500)],
        "C12" => vec![("general", 4500), ("voting", 2000), ("pair", 500)],
        "C19" => vec![("wire", 4000), ("general", 1500), ("voting", 500)],
        "C20" => vec![("amounts", 3000), ("general", 2500)],
        "C21" => vec![("registry", 3500), ("quorum", 800), ("general", 1500)],
        "C01" | "C08" | "C13" => vec![("general", 5000), ("quorum", 300)],
        "C22" => vec![("init", 14000), ("general", 500)],
        "C24" => vec![("general", 4500), ("registry", 800), ("quorum", 400)],
        "C14" => vec![("general", 5000), ("quorum", 400)],
        "C26" => vec![("general", 4500), ("wire", 200)],
        "C28" | "C29" => vec![("quoter", 6500)],
        "C30" => vec![("governance", 6000), ("packets", 500)],
        "C31" => vec![("governance", 5000), ("packets", 5000)],
        "C16" | "C17" | "C18" => vec![("general", 4500), ("governance", 600), ("registry", 300)],
        "C33" => vec![("general", 3500), ("quoter", 2000), ("init", 2000), ("voting", 1000), ("registry", 200), ("governance", 400)],
        "C34" => vec![("general", 3500), ("quoter", 1500), ("init", 2000), ("voting", 2000), ("governance", 800), ("pair", 300), ("quorum", 150)],
        "C35" => vec![("general", 3500), ("quoter", 2500), ("init", 2000), ("voting", 1500), ("governance", 1500), ("registry", 300), ("quorum", 150)],
        _ => vec![("general", 5000)],
    }
}

fn episode(scen: &str, focus: &str, seed: u64, verbose: bool) -> Obs {
    world::FOCUS.with(|f| *f.borrow_mut() = focus.to_string());
    world::SINK.with(|s| s.borrow_mut().clear());
    state::ALT.with(|a| a.borrow_mut().clear());
    match scen {
        "voting" => scen::voting(seed, verbose),
        "init" => scen::init(seed, verbose),
        "registry" => scen::register_many(seed, verbose),
        "quorum" => scen::quorum(seed, verbose),
        "quoter" => scen::quoter(seed, focus, verbose),
        "governance" => scen::gov_scenario(seed, verbose),
        "pair" => scen::pair(seed, verbose),
        #[cfg(feature = "library")]
        "amounts" => pure::amounts(seed, verbose),
        #[cfg(feature = "library")]
        "wire" => pure::wire(seed, verbose),
        #[cfg(feature = "library")]
        "packets" => pure::packets(seed, verbose),
        _ => scen::general(seed, focus, 150, verbose),
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

struct Hit {
    scen: &'static str,
    seed: u64,
    whats: Vec<String>,
    log: Vec<String>,
}

fn run(prop: &'static str, tier: &str, seed: u64, root: &Path, scale: f64) -> i32 {
    let t0 = Instant::now();
    let mult = scale * if tier == "thorough" { 40.0 } else { 2.0 };
    let mut jobs: Vec<(&'static str, u64)> = vec![];
    let plan = plan(prop);
    for (s, n) in &plan {
        let n = ((*n as f64 * mult) as u64).max(1);
        for i in 0..n {
            jobs.push((s, rng::mix(seed ^ hash(prop).rotate_left(17) ^ hash(s) ^ (i.wrapping_mul(0x9e3779b97f4a7c15)))));
        }
    }
    // interleave the scenarios so that a violation is met early
    jobs.sort_by_key(|(_, s)| rng::mix(*s ^ 0x5151));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let broken = AtomicUsize::new(0);
    let total = Mutex::new((Obs::default(), Vec::<(usize, Hit)>::new(), BTreeMap::<&'static str, u64>::new(), 0u64));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut acc = Obs::default();
                    let mut eps: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut others = 0;
                    loop {
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        if j >= jobs.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (s, es) = jobs[j];
                        let mut o = match std::panic::catch_unwind(|| episode(s, prop, es, false)) {
                            Ok(o) => o,
                            Err(_) => {
                                let seen = world::SINK.with(|s| std::mem::take(&mut *s.borrow_mut()));
                                if seen.is_empty() {
                                    broken.fetch_add(1, Ordering::Relaxed);
                                    eprintln!("the monitor itself failed in {s} episode {es}");
                                    continue;
                                }
                                // the ledger was already wrong: report that
                                Obs { violations: seen, ..Obs::default() }
                            }
                        };
                        *eps.entry(s).or_default() += 1;
                        let (mine, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut o.violations).into_iter().partition(|v| v.tags.contains(&prop));
                        others += rest.len() as u64;
                        let log = std::mem::take(&mut o.log);
                        acc.merge(o);
                        if !mine.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                            total.lock().unwrap().1.push((j, Hit { scen: s, seed: es, whats: mine.into_iter().map(|v| v.what).collect(), log }));
                            break;
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.0.merge(acc);
                    for (k, v) in eps {
                        *t.2.entry(k).or_default() += v;
                    }
                    t.3 += others;
                })
                .unwrap();
        }
    });
    let (obs, mut hits, eps, others) = total.into_inner().unwrap();
    hits.sort_by_key(|h| h.0);
    let evals = obs.judged_props.get(prop).copied().unwrap_or(0);
    let empty = BTreeMap::new();
    let sigs = obs.sigs.get(prop).unwrap_or(&empty);
    let mut common: Vec<(&String, &u64)> = sigs.iter().collect();
    common.sort_by_key(|(k, n)| (std::cmp::Reverse(**n), k.to_string()));
    let samples: Vec<_> = obs.samples.get(prop).map(|m| m.iter().map(|(k, v)| json!({"situation": k, "case": v})).collect()).unwrap_or_default();
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sigs.len(),
            "rule": "Every case is one transaction (or library call) of a generated hostile history, run on the real code and judged for this property by the step oracle or a history monitor. Two cases are distinct when their situation signature differs: operation, outcome, the oracle's classification (why it must be refused, or what it must do), which account or argument was substituted, token flavour and mode. Calls the oracle leaves undetermined are not counted.",
            "samples": samples,
            "episodes": eps,
            "episodes_not_judged": broken.load(Ordering::Relaxed),
            "transactions": obs.steps,
            "accepted": obs.accepted,
            "refused": obs.refused,
            "most_frequent_situations": common.iter().take(15).map(|(k, n)| json!([k, n])).collect::<Vec<_>>(),
            "violations_of_other_properties_seen": others,
        },
        "assumptions": [
            "the programs run natively on the Solana 1.18 runtime's invoke context (same Rust source, host target), the Wormhole core bridge as its mainnet binary",
            "guardian signatures are represented by accounts owned by the core bridge",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": hits.len(),
    });
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(root.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{prop} {tier} seed {seed}: {} transactions, {evals} judged for {prop} in {} distinct situations, {:.1} s", obs.steps, sigs.len(), t0.elapsed().as_secs_f64());
    if let Some((_, h)) = hits.first() {
        let dir = root.join("out");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{prop}-{}-{}.json", h.scen, h.seed));
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&json!({"property": prop, "scenario": h.scen, "seed": h.seed.to_string(), "violations": h.whats, "history": h.log})).unwrap());
        for w in h.whats.iter().take(5) {
            println!("  {w}");
        }
        println!("VIOLATION property={prop} replay={}", f.display());
        return 1;
    }
    let broken = broken.load(Ordering::Relaxed);
    if broken * 100 > jobs.len() {
        eprintln!("{broken} of {} episodes could not be judged", jobs.len());
        return 3;
    }
    if evals == 0 || sigs.len() < 8 {
        eprintln!("nothing observed for {prop}: the workload did not reach it");
        return 3;
    }
    0
}

fn main() {
    svm::init_env();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let root = Path::new(&root);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    match a.first().map(|s| s.as_str()) {
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("replay file")).expect("json");
            let prop = j["property"].as_str().unwrap().to_string();
            let (s, e) = (j["scenario"].as_str().unwrap().to_string(), j["seed"].as_str().unwrap().parse().unwrap());
            big(move || one(&s, &prop, e, true));
        }
        Some("episode") => {
            let (s, p, e) = (a[1].clone(), a[2].clone(), a[3].parse().unwrap());
            big(move || one(&s, &p, e, true));
        }
        Some("sweep") => {
            // sweep <scenario> <focus> <first> <count>: every violation of any property
            let (s, p, e, n): (String, String, u64, u64) = (a[1].clone(), a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap());
            big(move || {
                let t = Instant::now();
                let (mut tot, mut bad) = (Obs::default(), 0);
                for x in e..e + n {
                    let o = episode(&s, &p, x, false);
                    if let Some(v) = o.violations.first() {
                        bad += 1;
                        println!("{s} {p} seed {x}: {v:?}");
                    }
                    tot.merge(o);
                }
                println!("{s}: {n} episodes, {} steps, {} ok, {bad} with violations, {:?}", tot.steps, tot.accepted, t.elapsed());
                if std::env::var("SIGS").is_ok() {
                    for (q, m) in &tot.sigs {
                        println!("{q} {} {}", tot.judged_props[q], m.len());
                        if std::env::var("SIGS").unwrap() == *q {
                            for (k, n) in m {
                                println!("    {n:8} {k}");
                            }
                        }
                    }
                }
            });
        }
        Some(p) if ALL.contains(&p) => {
            let p = *ALL.iter().find(|x| **x == p).unwrap();
            let tier = a.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(run(p, &tier, seed, root, scale));
        }
        _ => {
            eprintln!("usage: ntt-monitor <property> [quick|thorough] | replay FILE | episode SCENARIO FOCUS SEED | sweep SCENARIO FOCUS FIRST COUNT");
            std::process::exit(2);
        }
    }
}

fn big(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap();
}

fn one(s: &str, p: &str, seed: u64, verbose: bool) {
    let o = episode(s, p, seed, verbose);
    for v in &o.violations {
        println!("{:?} {}", v.tags, v.what);
    }
    println!("{} violations", o.violations.len());
}
