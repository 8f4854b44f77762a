//! vleak SHARD SHARDS: repeats cases of the monitors of all properties and watches
//! the bytes live at the allocator: a case which drops all it made and is repeated
//! must not make them grow. Prints LEAK lines and totals; run.sh (C25) decides.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::Instant;
use vcore::gen::Rng;
use vcore::mon;

struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Count = Count;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (shard, shards): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let per_job = if thorough { 120 } else { 12 };
    mon::install_hook();
    let (mut cases, mut runs, mut jobs, mut n) = (0u64, 0u64, 0u64, 0u64);
    for i in 1..=32 {
        let id = format!("C{i:02}");
        let Some(plan) = vcore::props::plan(&id, thorough) else { continue };
        for j in plan.jobs.iter().filter(|j| j.name != "giant primes" && j.name != vcore::props::endure::JOB) {
            jobs += 1;
            let mut rng = Rng::new(mon::fnv(format!("{seed}/leak/{id}/{}", j.name).as_bytes()));
            for c in 0..per_job.min(j.cases) {
                let case = if c < 2 || j.cases <= per_job { c } else { rng.below(j.cases as usize) as u64 };
                n += 1;
                if n % shards != shard {
                    continue;
                }
                cases += 1;
                let mut once = || {
                    runs += 1;
                    drop(mon::run_one(&plan, seed, thorough, &j.name, case));
                    LIVE.load(Relaxed)
                };
                let t = Instant::now();
                let l0 = once(); // fills what is filled once
                let slow = t.elapsed().as_millis() > 400;
                if slow && c > 0 {
                    continue;
                }
                let l: Vec<i64> = (0..3).map(|_| once()).collect();
                if !(l[0] < l[1] && l[1] < l[2]) {
                    continue;
                }
                // growing: is it bounded?
                let mut at = vec![];
                let b0 = BLOCKS.load(Relaxed);
                let mut k = 0u64;
                let limit = Instant::now();
                for stop in [8u64, 24, 72, 216] {
                    while k < stop {
                        k += 1;
                        once();
                    }
                    at.push(LIVE.load(Relaxed));
                    if limit.elapsed().as_secs() > 40 && at.len() >= 3 {
                        break;
                    }
                }
                if at.windows(2).all(|w| w[0] < w[1]) {
                    println!(
                        "LEAK case {case} of {id}, {}: {} bytes in {} blocks more are live after {k} repetitions (bytes after the first ones: {:?})",
                        j.name,
                        LIVE.load(Relaxed) - l[2],
                        BLOCKS.load(Relaxed) - b0,
                        l.iter().map(|v| v - l0).collect::<Vec<_>>()
                    );
                    println!("TOTAL {cases} {runs} {jobs} {}", EVENTS.load(Relaxed));
                    return;
                }
            }
        }
    }
    println!("TOTAL {cases} {runs} {jobs} {}", EVENTS.load(Relaxed));
}
