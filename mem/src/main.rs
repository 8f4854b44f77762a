//! Live-byte accounting: after every cycle that drops all it created, the bytes
//! held by the global allocator must stop growing.
use mem::histories;
use num_bigint::BigUint;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::Instant;
use vcore::gen::{self, Rng};
use vcore::mon::{self, Outcome, Stats, Violation};

struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Count = Count;

fn main() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let extra: Vec<(String, String)> = std::env::args()
        .skip(1)
        .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), mon::json_str(v))))
        .collect();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let mut o = Outcome { stats: Stats::default(), violations: vec![], harness_errors: vec![], jobs: Default::default() };
    let mut rng = Rng::new(mon::fnv(format!("{seed}/C25").as_bytes()));
    let scale = if thorough { 6 } else { 1 };
    for (name, base, step) in histories() {
        // a pool of inputs made beforehand: every cycle uses a different instance
        let n = 16 * base * scale;
        let bits = 96 + rng.below(100);
        let p3: Vec<BigUint> = (0..n.min(4000)).map(|_| gen::rand_prime(&mut rng, bits, |m| m % 4 == 3)).collect();
        let p5: Vec<BigUint> = (0..n.min(4000)).map(|_| gen::rand_prime(&mut rng, bits, |m| m == 5)).collect();
        let inputs: Vec<mem::Input> = (0..n)
            .map(|i| mem::Input { p3: p3[i % p3.len()].clone(), p5: p5[i % p5.len()].clone(), k: rng.u64() >> (8 + rng.below(40)) })
            .collect();
        let mut at: Vec<(usize, i64, i64)> = Vec::with_capacity(8);
        let e0 = EVENTS.load(Relaxed);
        let (mut next, mut refused) = (2 * base * scale, 0u64);
        for (i, x) in inputs.iter().enumerate() {
            refused += std::panic::catch_unwind(|| step(x)).is_err() as u64;
            if i + 1 == next {
                at.push((next, LIVE.load(Relaxed), BLOCKS.load(Relaxed)));
                next *= 2;
            }
        }
        let ev = EVENTS.load(Relaxed) - e0;
        o.stats.evals += n as u64;
        *o.stats.counters.entry("cycles").or_default() += n as u64;
        *o.stats.counters.entry("allocations observed").or_default() += ev;
        *o.stats.counters.entry("histories cut short by a panic").or_default() += refused;
        o.jobs.insert(name.to_string(), n as u64);
        for (i, x) in inputs.iter().enumerate() {
            o.stats.seen.insert(mon::fnv(format!("{name}/{i}/{}/{}", x.k, x.p3).as_bytes()));
        }
        let l: Vec<i64> = at.iter().map(|x| x.1).collect();
        if o.stats.samples.len() < 12 {
            o.stats.samples.push(format!("{name}: {ev} allocations in {n} cycles, bytes live at the checkpoints relative to the first: {:?}", l.iter().map(|x| x - l[0]).collect::<Vec<_>>()));
        }
        // growing over each of the last doublings of the number of cycles
        if l.len() == 4 && l[1] > l[0] && l[2] > l[1] && l[3] > l[2] {
            o.violations.push(Violation {
                job: name.to_string(),
                case: n as u64,
                msg: format!(
                    "memory is not released after {name}: {} bytes in {} blocks more are live after {} cycles than after {} (checkpoints {:?})",
                    l[3] - l[0],
                    at[3].2 - at[0].2,
                    at[3].0,
                    at[0].0,
                    l
                ),
            });
            break;
        }
    }
    mon::write_evidence(
        "C25",
        seed,
        thorough,
        t0.elapsed().as_secs_f64(),
        "a cycle creates values from fresh parameters, uses them and drops them all; distinct = distinct (history, parameters); bytes live at the allocator are read at four quiescent points per history",
        &o,
        &["memory is obtained from the global allocator only".to_string()],
        &extra,
    );
    if let Some(v) = o.violations.first() {
        mon::report_violation("C25", seed, thorough, v);
        std::process::exit(1);
    }
    println!("C25 held: {:?}", o.stats.counters);
    for s in &o.stats.samples {
        println!("  {s}");
    }
}
