//! Monitor runtime: events, verdicts, workers, watchdog, evidence.
use crate::gen::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Outcome of a case that did not hold.
pub enum Fail {
    /// The observed execution refutes the property.
    Violation(String),
}

pub type R<T = ()> = Result<T, Fail>;

thread_local! {
    static IN_LIB: RefCell<bool> = const { RefCell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Installs a hook which records panics raised inside monitored calls quietly.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg:?} at {loc}"));
        if !IN_LIB.with(|b| *b.borrow()) {
            old(info);
        }
    }));
}

/// Runs `f` (a call into the library), returning Err(panic text) if it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_LIB.with(|b| b.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|b| *b.borrow_mut() = prev);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Per-case context handed to workloads.
pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub thorough: bool,
    pub stats: Stats,
    pub sampling: bool,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

const SEEN_CAP: usize = 4_000_000;

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        if self.seen.len() < SEEN_CAP {
            self.seen.extend(o.seen);
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Ctx {
    /// A monitored library call: a panic refutes totality.
    pub fn call<T>(&self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> R<T> {
        guarded(f).map_err(|p| Fail::Violation(format!("library panicked {p} in {}", what())))
    }
    /// A monitored call which must be refused (panic) and never return a value.
    pub fn refused<T>(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> R {
        self.stats.evals += 1;
        match guarded(f) {
            Err(_) => Ok(()),
            Ok(_) => Err(Fail::Violation(format!("expected refusal but a value was returned: {}", what()))),
        }
    }
    /// Oracle comparison.
    pub fn check(&mut self, ok: bool, what: impl Fn() -> String) -> R {
        self.stats.evals += 1;
        if ok {
            Ok(())
        } else {
            Err(Fail::Violation(what()))
        }
    }
    pub fn hit(&mut self, k: &'static str) {
        *self.stats.counters.entry(k).or_default() += 1;
    }
    pub fn hits(&mut self, k: &'static str, n: u64) {
        *self.stats.counters.entry(k).or_default() += n;
    }
    /// Registers a distinct non-trivial observed event.
    pub fn seen(&mut self, what: &[&[u8]]) {
        let mut h = 0x9e3779b97f4a7c15u64;
        for w in what {
            h = h.rotate_left(17).wrapping_mul(0x2545f4914f6cdd1d) ^ fnv(w);
        }
        if self.stats.seen.len() < SEEN_CAP {
            self.stats.seen.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sampling && self.stats.samples.len() < 2 {
            let s = f();
            self.stats.samples.push(s);
        }
    }
}

#[macro_export]
macro_rules! lib {
    ($ctx:expr, $e:expr, $($arg:tt)+) => { $ctx.call(|| format!($($arg)+), || $e)? };
}
#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $c:expr, $($arg:tt)+) => { { let ok = $c; $ctx.check(ok, || format!($($arg)+))?; } };
}

pub type CaseFn = Arc<dyn Fn(&mut Ctx) -> R + Send + Sync>;

pub struct Job {
    pub name: String,
    pub cases: u64,
    pub f: CaseFn,
}

pub struct Plan {
    pub id: &'static str,
    pub rule: &'static str,
    /// counters which must be nonzero or the run is inconclusive
    pub must_hit: Vec<&'static str>,
    pub jobs: Vec<Job>,
}

impl Plan {
    pub fn new(id: &'static str, rule: &'static str) -> Plan {
        Plan { id, rule, must_hit: vec![], jobs: vec![] }
    }
    pub fn job(&mut self, name: impl Into<String>, cases: u64, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) {
        self.jobs.push(Job { name: name.into(), cases, f: Arc::new(f) });
    }
}

pub struct Violation {
    pub job: String,
    pub case: u64,
    pub msg: String,
}

pub struct Outcome {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub jobs: BTreeMap<String, u64>,
}

fn case_seed(seed: u64, id: &str, job: &str, case: u64) -> u64 {
    fnv(format!("{seed}/{id}/{job}/{case}").as_bytes())
}

pub fn run_one(plan: &Plan, seed: u64, thorough: bool, job: &str, case: u64) -> Result<R, String> {
    let j = plan.jobs.iter().find(|j| j.name == job).ok_or("no such job")?;
    let mut ctx = Ctx { rng: Rng::new(case_seed(seed, plan.id, job, case)), case, thorough, stats: Stats::default(), sampling: false };
    catch_unwind(AssertUnwindSafe(|| (j.f)(&mut ctx)))
        .map_err(|_| format!("harness panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

struct WorkerSlot {
    tid: Mutex<Option<String>>,
    ticket: AtomicU64, // current global case ticket + 1; 0 = idle
    finished: AtomicBool,
}

/// (state, cpu ticks) of a thread, from /proc.
fn thread_stat(path: &str) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/{path}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = rest.split(' ').collect();
    let st = v.first()?.chars().next()?;
    let u: u64 = v.get(11)?.parse().ok()?;
    let k: u64 = v.get(12)?.parse().ok()?;
    Some((st, u + k))
}

/// CPU seconds a single case may use before it counts as non-terminating
/// (cases need well under one second; budget is CPU time, not wall-clock).
const CPU_BUDGET_S: u64 = 150;

pub fn run_plan(plan: &Plan, seed: u64, thorough: bool, threads: usize, only_prop_note: &str) -> Outcome {
    let _ = only_prop_note;
    // flatten
    let mut starts = vec![];
    let mut total = 0u64;
    for j in &plan.jobs {
        starts.push(total);
        total += j.cases;
    }
    let locate = |t: u64| -> (usize, u64) {
        let i = match starts.binary_search(&t) {
            Ok(mut i) => {
                // skip empty jobs
                while plan.jobs[i].cases == 0 {
                    i += 1;
                }
                i
            }
            Err(i) => i - 1,
        };
        (i, t - starts[i])
    };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let alive = AtomicUsize::new(threads);
    let merged = Mutex::new(Stats::default());
    let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let herr: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let slots: Vec<WorkerSlot> = (0..threads)
        .map(|_| WorkerSlot { tid: Mutex::new(None), ticket: AtomicU64::new(0), finished: AtomicBool::new(false) })
        .collect();
    let print_and_exit = |v: Violation| -> ! {
        // used by the watchdog only: a worker is stuck, so the process must end here
        crate::mon::report_violation(plan.id, seed, thorough, &v);
        std::process::exit(1);
    };
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (slots, next, stop, alive, merged, viol, herr, done, locate) =
                (&slots, &next, &stop, &alive, &merged, &viol, &herr, &done, &locate);
            sc.spawn(move || {
                *slots[w].tid.lock().unwrap() =
                    std::fs::read_link("/proc/thread-self").ok().map(|p| p.display().to_string());
                let mut stats = Stats::default();
                let mut local: BTreeMap<String, u64> = BTreeMap::new();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let t = next.fetch_add(1, Ordering::Relaxed);
                    if t >= total {
                        break;
                    }
                    let (ji, case) = locate(t);
                    let j = &plan.jobs[ji];
                    slots[w].ticket.store(t + 1, Ordering::Relaxed);
                    let mut ctx = Ctx {
                        rng: Rng::new(case_seed(seed, plan.id, &j.name, case)),
                        case,
                        thorough,
                        stats: std::mem::take(&mut stats),
                        sampling: case < 2,
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| (j.f)(&mut ctx)));
                    stats = std::mem::take(&mut ctx.stats);
                    let mut samples: Vec<String> = stats.samples.drain(..).collect();
                    if !samples.is_empty() {
                        let mut m = merged.lock().unwrap();
                        for s in samples.drain(..) {
                            if m.samples.len() < 12 {
                                m.samples.push(format!("[{}] {}", j.name, s));
                            }
                        }
                    }
                    slots[w].ticket.store(0, Ordering::Relaxed);
                    match r {
                        Ok(Ok(())) => *local.entry(j.name.clone()).or_default() += 1,
                        Ok(Err(Fail::Violation(msg))) => {
                            stop.store(true, Ordering::Relaxed);
                            viol.lock().unwrap().push(Violation { job: j.name.clone(), case, msg });
                        }
                        // outside a guarded call, but raised by the code under test
                        Err(_) if LAST_PANIC.with(|p| p.borrow().contains(" at /repo/")) => {
                            stop.store(true, Ordering::Relaxed);
                            let msg = format!("the library panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()));
                            viol.lock().unwrap().push(Violation { job: j.name.clone(), case, msg });
                        }
                        Err(_) => {
                            stop.store(true, Ordering::Relaxed);
                            herr.lock().unwrap().push(format!(
                                "harness panic in job {} case {}: {}",
                                j.name,
                                case,
                                LAST_PANIC.with(|p| p.borrow().clone())
                            ));
                        }
                    }
                }
                merged.lock().unwrap().merge(stats);
                let mut d = done.lock().unwrap();
                for (k, v) in local {
                    *d.entry(k).or_default() += v;
                }
                slots[w].finished.store(true, Ordering::SeqCst);
                alive.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // watchdog
        let (slots, alive, locate) = (&slots, &alive, &locate);
        sc.spawn(move || {
            let hz = 100u64;
            let mut base: Vec<(u64, u64)> = vec![(0, 0); threads]; // (ticket, cpu at first sight)
            while alive.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                // coarse: only sample /proc about every second
                static LAST: AtomicU64 = AtomicU64::new(0);
                let now = now_ms();
                if now - LAST.load(Ordering::Relaxed) < 1000 {
                    continue;
                }
                LAST.store(now, Ordering::Relaxed);
                for (w, slot) in slots.iter().enumerate() {
                    let t = slot.ticket.load(Ordering::Relaxed);
                    if t == 0 || slot.finished.load(Ordering::SeqCst) {
                        base[w] = (0, 0);
                        continue;
                    }
                    let tid = slot.tid.lock().unwrap().clone();
                    let Some((_st, cpu)) = tid.and_then(|p| thread_stat(&p)) else { continue };
                    if base[w].0 != t {
                        base[w] = (t, cpu);
                    } else if cpu.saturating_sub(base[w].1) > CPU_BUDGET_S * hz {
                        let (ji, case) = locate(t - 1);
                        print_and_exit(Violation {
                            job: plan.jobs[ji].name.clone(),
                            case,
                            msg: format!("a call did not return within {CPU_BUDGET_S} CPU-seconds"),
                        });
                    }
                }
            }
        });
    });
    let mut violations = viol.into_inner().unwrap();
    violations.sort_by(|a, b| (&a.job, a.case).cmp(&(&b.job, b.case)));
    Outcome {
        stats: merged.into_inner().unwrap(),
        violations,
        harness_errors: herr.into_inner().unwrap(),
        jobs: done.into_inner().unwrap(),
    }
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 2000
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// With VMON_DRY set a run only tells its verdict (C28 compares those of builds).
fn dry() -> bool {
    std::env::var("VMON_DRY").is_ok()
}

pub fn report_violation(id: &str, seed: u64, thorough: bool, v: &Violation) {
    if dry() {
        println!("DRY violated {} case {}: {}", v.job, v.case, v.msg.replace('\n', " "));
        return;
    }
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-seed{seed}-{}-{}.json", v.job.replace(|c: char| !c.is_alphanumeric(), "_"), v.case);
    let body = format!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"job\":{},\"case\":{},\"observed\":{},\"replay\":{}}}\n",
        json_str(id),
        seed,
        json_str(if thorough { "thorough" } else { "quick" }),
        json_str(&v.job),
        v.case,
        json_str(&v.msg),
        json_str(&format!(
            "VERIF_SEED={seed} VERIF_TIER={} {}/run.sh {id} --job '{}' --case {}",
            if thorough { "thorough" } else { "quick" },
            verif_dir(),
            v.job,
            v.case
        ))
    );
    let _ = std::fs::write(&path, body);
    println!("observed: {}", v.msg);
    println!("VIOLATION property={id} replay={path}");
}

pub fn write_evidence(
    id: &str,
    seed: u64,
    thorough: bool,
    wall: f64,
    rule: &str,
    o: &Outcome,
    assumptions: &[String],
    extra: &[(String, String)],
) {
    if dry() {
        println!("DRY evaluations {}", o.stats.evals);
        return;
    }
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\": {}", o.stats.evals));
    cov.push_str(&format!(", \"distinct_nontrivial\": {}", o.stats.seen.len()));
    cov.push_str(&format!(", \"rule\": {}", json_str(rule)));
    let s: Vec<String> = o.stats.samples.iter().map(|s| json_str(s)).collect();
    cov.push_str(&format!(", \"samples\": [{}]", s.join(", ")));
    let c: Vec<String> = o.stats.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    cov.push_str(&format!(", \"observed_events\": {{{}}}", c.join(", ")));
    let j: Vec<String> = o.jobs.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    cov.push_str(&format!(", \"cases_per_workload\": {{{}}}", j.join(", ")));
    for (k, v) in extra {
        cov.push_str(&format!(", {}: {}", json_str(k), v));
    }
    let a: Vec<String> = assumptions.iter().map(|s| json_str(s)).collect();
    let body = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        cov,
        a.join(", "),
        wall,
        o.violations.len()
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), body).expect("evidence");
}
