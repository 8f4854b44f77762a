//! vmon <PROPERTY> [--job NAME --case N]
//!
//! The parent process runs the monitors in a child, so that an abort or stack
//! overflow of the code under test is observed rather than fatal. Exit codes:
//! 0 held on everything explored, 1 violation, 2 no verdict.
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use std::time::Instant;
use vcore::mon::{self, Fail};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = match opt("--tier").as_deref() {
        Some(t) => t == "thorough",
        None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
    };
    if std::env::var("VMON_CHILD").is_err() {
        let st = Command::new(std::env::current_exe().unwrap()).args(&args).env("VMON_CHILD", "1").status().expect("child");
        if let Some(c) = st.code() {
            exit(c);
        }
        let sig = st.signal().unwrap_or(0);
        if sig == 9 || sig == 15 {
            println!("no verdict: the monitors were killed by signal {sig}");
            exit(2);
        }
        mon::report_violation(
            &id,
            seed,
            thorough,
            &mon::Violation { job: "process".into(), case: 0, msg: format!("the process died from signal {sig} (abort, stack overflow or memory fault)") },
        );
        exit(1);
    }
    mon::install_hook();
    let Some(mut plan) = vcore::props::plan(&id, thorough) else {
        println!("unknown property {id}");
        exit(2);
    };
    if let (Some(job), Some(case)) = (opt("--job"), opt("--case")) {
        match mon::run_one(&plan, seed, thorough, &job, case.parse().expect("case")) {
            Ok(Ok(())) => println!("case holds"),
            Ok(Err(Fail::Violation(m))) => {
                mon::report_violation(&id, seed, thorough, &mon::Violation { job, case: case.parse().unwrap(), msg: m });
                exit(1);
            }
            Err(e) => {
                println!("no verdict: {e}");
                exit(2);
            }
        }
        return;
    }
    // C28 repeats every n-th part of each workload in other builds
    let part = env_u64("VMON_DRY", 1).max(1);
    if part > 1 {
        plan.jobs.retain(|j| j.name != "giant primes" && j.name != vcore::props::endure::JOB);
        plan.must_hit.retain(|k| *k != "giant fields" && *k != "answers repeated");
    }
    for j in &mut plan.jobs {
        j.cases = j.cases.div_ceil(part);
    }
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let o = mon::run_plan(&plan, seed, thorough, threads, "");
    let wall = t0.elapsed().as_secs_f64();
    mon::write_evidence(
        &id,
        seed,
        thorough,
        wall,
        plan.rule,
        &o,
        &["the reference model in /verif/harness/src/refm.rs and the constants in named.rs are right".to_string()],
        &[],
    );
    if let Some(v) = o.violations.first() {
        mon::report_violation(&id, seed, thorough, v);
        exit(1);
    }
    for e in &o.harness_errors {
        println!("no verdict: {e}");
    }
    if !o.harness_errors.is_empty() {
        exit(2);
    }
    for k in &plan.must_hit {
        if o.stats.counters.get(k).copied().unwrap_or(0) == 0 {
            println!("no verdict: the workload never exercised {k:?}");
            exit(2);
        }
    }
    println!(
        "{id} held: {} oracle evaluations, {} distinct cases, {:.1}s",
        o.stats.evals,
        o.stats.seen.len(),
        wall
    );
    for (k, v) in &o.stats.counters {
        println!("  observed {k}: {v}");
    }
}
