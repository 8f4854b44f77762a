//! Native schedule stress: many short rounds in which several threads start using
//! one freshly created value at the same instant; every result is compared with
//! the result of the same operation on a private copy in a single thread.
use conc::*;
use num_bigint::BigUint;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use std::time::{Duration, Instant};
use vcore::gen::{self, Rng};
use vcore::mon::{self, Outcome, Stats, Violation};

const ID: &str = "C24";

struct Round {
    scn: Box<dyn Scenario>,
    /// per thread: own clone of the handles?, (spin, op, arg) script
    plans: Vec<(bool, Vec<(u32, usize, u64)>)>,
    gate: AtomicUsize,
    t0: Instant,
    out: Vec<Mutex<Option<Obs>>>,
}

struct Obs {
    results: Vec<Result<Vec<u8>, String>>,
    /// start and end of the first operation, nanoseconds since t0
    span: (u64, u64),
}

fn worker(i: usize, r: &Round) {
    let (own, script) = &r.plans[i];
    let mine = own.then(|| r.scn.fork());
    r.gate.fetch_add(1, Ordering::SeqCst);
    let mut n = 0u32;
    while r.gate.load(Ordering::SeqCst) < r.plans.len() {
        n += 1;
        if n > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
    let s: &dyn Scenario = match &mine {
        Some(m) => m.as_ref(),
        None => r.scn.as_ref(),
    };
    let mut results = Vec::with_capacity(script.len());
    let mut span = (0, 0);
    for (k, (spin, op, arg)) in script.iter().enumerate() {
        for _ in 0..*spin {
            std::hint::spin_loop();
        }
        let a = r.t0.elapsed().as_nanos() as u64;
        results.push(mon::guarded(|| s.run(*op, *arg)));
        if k == 0 {
            span = (a, r.t0.elapsed().as_nanos() as u64);
        }
    }
    *r.out[i].lock().unwrap() = Some(Obs { results, span });
    // a clone dies here, while other threads may still compute
}

fn scenarios(thorough: bool, rng: &mut Rng) -> Vec<(Box<dyn Scenario>, u64, usize)> {
    let k = if thorough { 14 } else { 1 };
    let mut v: Vec<(Box<dyn Scenario>, u64, usize)> = vec![];
    let small = |n: u32| BigUint::from(n);
    // (value, rounds, longest script)
    for p in [13u32, 29, 61, 11, 103] {
        v.push((Box::new(FpScn::new(&small(p))), 6000 * k, 3));
    }
    for p in [7u32, 19, 103] {
        v.push((Box::new(Fp2Scn::new(&small(p))), 5000 * k, 3));
    }
    for b in [64, 255, 521] {
        for m in [3, 5] {
            let p = gen::rand_prime(rng, b, |r| if m == 3 { r % 4 == 3 } else { r == 5 });
            v.push((Box::new(FpScn::new(&p)), 1200 * k, 4));
            if m == 3 {
                v.push((Box::new(Fp2Scn::new(&p)), if b > 300 { 60 } else { 400 } * k, 3));
            }
        }
    }
    let mix = |a: Box<dyn Scenario>, b: Box<dyn Scenario>| -> Box<dyn Scenario> { Box::new(MixScn::new(a, b)) };
    v.push((mix(Box::new(FpScn::new(&small(13))), Box::new(FpScn::new(&small(29)))), 3000 * k, 4));
    v.push((mix(Box::new(FpScn::new(&small(11))), Box::new(Fp2Scn::new(&small(11)))), 3000 * k, 4));
    // fields of different sizes
    for (b, c) in [(7, 12), (8, 64), (60, 130)] {
        let p = gen::rand_prime(rng, b, |r| r % 4 == 3);
        let q = gen::rand_prime(rng, c, |r| r % 8 == 5);
        let q3 = gen::rand_prime(rng, c, |r| r % 4 == 3);
        v.push((mix(Box::new(FpScn::new(&p)), Box::new(FpScn::new(&q))), 3000 * k, 4));
        v.push((mix(Box::new(Fp2Scn::new(&p)), Box::new(Fp2Scn::new(&q3))), 1500 * k, 4));
    }
    v.push((mix(Box::new(WScn::new(0)), Box::new(MScn::new(0))), 800 * k, 4));
    v.push((mix(Box::new(MScn::new(1)), Box::new(EScn::new(1))), 25 * k, 3));
    v.push((mix(Box::new(WScn::new(1)), Box::new(WScn::new(3))), 25 * k, 3));
    // constants that take long to compute keep first use open for long
    let p = gen::rand_prime(rng, 1300, |r| r == 5);
    v.push((Box::new(FpScn::new(&p)), 60 * k, 2));
    v.push((Box::new(WScn::new(0)), 1500 * k, 4));
    v.push((Box::new(MScn::new(0)), 1500 * k, 4));
    v.push((Box::new(EScn::new(0)), 1500 * k, 4));
    for w in 1..=3 {
        v.push((Box::new(WScn::new(w)), 25 * k, 3));
    }
    for w in 1..=2 {
        v.push((Box::new(MScn::new(w)), 25 * k, 3));
        v.push((Box::new(EScn::new(w)), 25 * k, 3));
    }
    v
}

fn main() {
    assert_thread_safe();
    mon::install_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let extra: Vec<(String, String)> = std::env::args()
        .skip(1)
        .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), mon::json_str(v))))
        .collect();
    let t_start = Instant::now();
    let mut rng = Rng::new(mon::fnv(format!("{seed}/{ID}").as_bytes()));
    let nthreads = 8usize;

    let slot: Arc<RwLock<Option<Arc<Round>>>> = Arc::new(RwLock::new(None));
    let start = Arc::new(Barrier::new(nthreads + 1));
    let end = Arc::new(Barrier::new(nthreads + 1));
    for i in 0..nthreads {
        let (slot, start, end) = (slot.clone(), start.clone(), end.clone());
        std::thread::spawn(move || loop {
            start.wait();
            let r = slot.read().unwrap().clone();
            if let Some(r) = r {
                if i < r.plans.len() {
                    worker(i, &r);
                }
            }
            end.wait();
        });
    }
    // watchdog: no round finishing, and no CPU used, means a deadlock; no round
    // finishing while CPU is burnt means a live-lock
    let rounds_done = Arc::new(AtomicU64::new(0));
    let label = Arc::new(Mutex::new(String::new()));
    {
        let (done, label) = (rounds_done.clone(), label.clone());
        std::thread::spawn(move || {
            let cpu = || -> u64 {
                let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
                let v: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
                v.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + v.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
            };
            let (mut last, mut since, mut at) = (u64::MAX, Instant::now(), 0);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let d = done.load(Ordering::SeqCst);
                if d != last {
                    (last, since, at) = (d, Instant::now(), cpu());
                    continue;
                }
                let used = cpu() - at;
                let idle = since.elapsed() > Duration::from_secs(45) && used < 100;
                if idle || used > 240 * 100 {
                    let l = label.lock().unwrap().clone();
                    mon::report_violation(
                        ID,
                        seed,
                        thorough,
                        &Violation {
                            job: l.clone(),
                            case: d,
                            msg: format!("threads sharing {l} never finish ({})", if idle { "deadlock" } else { "no progress" }),
                        },
                    );
                    std::process::exit(1);
                }
            }
        });
    }

    let mut o = Outcome { stats: Stats::default(), violations: vec![], harness_errors: vec![], jobs: Default::default() };
    let mut orders: HashSet<u64> = HashSet::new();
    let (mut overlapped, mut contended_first) = (0u64, 0u64);
    'all: for (proto, rounds, maxlen) in scenarios(thorough, &mut rng) {
        let name = proto.name();
        *label.lock().unwrap() = name.clone();
        let nops = proto.ops();
        // the oracle: one thread, private values; memoised per (op, arg)
        let args: Vec<u64> = (0..12).map(|_| rng.u64() >> rng.below(56)).collect();
        let mut table = vec![];
        for op in 0..nops {
            let mut row = vec![];
            for a in &args {
                let alone = proto.fresh();
                let alone = mon::guarded(|| alone.run(op, *a));
                *o.stats.counters.entry(if alone.is_ok() { "sequential results" } else { "sequential refusals" }).or_default() += 1;
                row.push(alone);
            }
            table.push(row);
        }
        for case in 0..rounds {
            let n = 2 + rng.below(nthreads - 1);
            let same_first = rng.below(4) != 0;
            let plans: Vec<(bool, Vec<(u32, usize, u64)>)> = (0..n)
                .map(|_| {
                    let len = 1 + rng.below(maxlen);
                    let script = (0..len)
                        .map(|j| {
                            let spin = match rng.below(4) {
                                0 => rng.below(60) as u32,
                                1 => rng.below(600) as u32,
                                _ => 0,
                            };
                            let op = if j == 0 && same_first { rng.below(2) } else { rng.below(nops) };
                            (spin, op, rng.below(args.len()) as u64)
                        })
                        .collect();
                    (rng.bool(), script)
                })
                .collect();
            let real: Vec<(bool, Vec<(u32, usize, u64)>)> =
                plans.iter().map(|(o, s)| (*o, s.iter().map(|(w, op, a)| (*w, *op, args[*a as usize])).collect())).collect();
            let r = Arc::new(Round {
                scn: proto.fresh(),
                plans: real,
                gate: AtomicUsize::new(0),
                t0: Instant::now(),
                out: (0..n).map(|_| Mutex::new(None)).collect(),
            });
            *slot.write().unwrap() = Some(r.clone());
            start.wait();
            end.wait();
            *slot.write().unwrap() = None;
            rounds_done.fetch_add(1, Ordering::SeqCst);
            // offline check of the recorded round
            let mut spans = vec![];
            for (i, (_, script)) in plans.iter().enumerate() {
                let obs = r.out[i].lock().unwrap().take();
                let Some(obs) = obs else {
                    o.harness_errors.push(format!("thread {i} recorded nothing"));
                    break 'all;
                };
                spans.push(obs.span);
                for ((_, op, a), got) in script.iter().zip(&obs.results) {
                    o.stats.evals += 1;
                    let want = &table[*op][*a as usize];
                    let ok = match (want, got) {
                        (Ok(w), Ok(g)) => w == g,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    if !ok {
                        o.violations.push(Violation {
                            job: name.clone(),
                            case,
                            msg: format!(
                                "{n} threads sharing {name}: operation {op} with argument {} gave {} in thread {i}, and {} when run alone",
                                args[*a as usize],
                                match got {
                                    Ok(g) => vcore_hex(g),
                                    Err(p) => format!("panic {p}"),
                                },
                                match want {
                                    Ok(g) => vcore_hex(g),
                                    Err(p) => format!("panic {p}"),
                                }
                            ),
                        });
                        break 'all;
                    }
                }
            }
            // which interleaving of the first operations was this?
            let mut ev: Vec<(u64, u8)> = vec![];
            for (i, (a, b)) in spans.iter().enumerate() {
                ev.push((*a, i as u8));
                ev.push((*b, 64 + i as u8));
            }
            ev.sort();
            let mut sig = vec![];
            for (_, e) in &ev {
                sig.push(*e);
            }
            sig.extend_from_slice(&mon::fnv(name.as_bytes()).to_le_bytes());
            orders.insert(mon::fnv(&sig));
            let first_end = spans.iter().map(|s| s.1).min().unwrap();
            let inside = spans.iter().filter(|s| s.0 < first_end).count();
            if inside >= 2 {
                overlapped += 1;
                if same_first {
                    contended_first += 1;
                }
            }
            if case == 0 && o.stats.samples.len() < 12 {
                o.stats.samples.push(format!("{name}: {n} threads, {inside} inside their first operation at once"));
            }
            *o.jobs.entry(name.clone()).or_default() += 1;
        }
    }
    for s in &orders {
        o.stats.seen.insert(*s);
    }
    o.stats.counters.insert("rounds", rounds_done.load(Ordering::SeqCst));
    o.stats.counters.insert("rounds whose first operations overlapped", overlapped);
    o.stats.counters.insert("rounds with contended first square roots", contended_first);
    mon::write_evidence(
        ID,
        seed,
        thorough,
        t_start.elapsed().as_secs_f64(),
        "a round has several threads start using one fresh value at once; distinct = distinct orders of the starts and ends of their first operations, per value",
        &o,
        &["schedules come from the operating system, random delays and Miri's seeded scheduler; they are a sample".to_string()],
        &extra,
    );
    if let Some(v) = o.violations.first() {
        mon::report_violation(ID, seed, thorough, v);
        std::process::exit(1);
    }
    if !o.harness_errors.is_empty() || overlapped == 0 {
        println!("no verdict: {:?}, {overlapped} overlapping rounds", o.harness_errors);
        std::process::exit(2);
    }
    println!("{ID} held natively: {} results compared, {:?}, {} distinct interleavings", o.stats.evals, o.stats.counters, orders.len());
    std::process::exit(0);
}

fn vcore_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
