//! Short concurrent histories for the race detectors (Miri, ThreadSanitizer).
use conc::*;
use num_bigint::BigUint;
use std::sync::{Arc, Barrier};

/// `split`: every other thread works on the neighbouring argument
fn go2(proto: &dyn Scenario, threads: usize, script: &[usize], arg: u64, drop_early: bool, split: u64) {
    let alone = proto.fresh();
    let want: Vec<Vec<Vec<u8>>> = (0..2u64).map(|h| script.iter().map(|op| alone.run(*op, arg ^ (h * split))).collect()).collect();
    let shared: Arc<Box<dyn Scenario>> = Arc::new(proto.fresh());
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let (s, g, script) = (shared.clone(), gate.clone(), script.to_vec());
            std::thread::spawn(move || {
                let own = (i / 2 % 2 == 1).then(|| s.fork());
                let arg = arg ^ ((i as u64 & 1) * split);
                g.wait();
                let mut out = vec![];
                for op in script {
                    out.push(match &own {
                        Some(o) => o.run(op, arg),
                        None => s.run(op, arg),
                    });
                }
                out
            })
        })
        .collect();
    if drop_early {
        drop(shared);
    }
    for (i, h) in hs.into_iter().enumerate() {
        let want = &want[i & 1];
        match h.join() {
            Ok(got) => {
                if got != *want {
                    println!("MONITOR: sharing {} gave {got:?} instead of {want:?}", proto.name());
                    std::process::exit(1);
                }
            }
            Err(_) => {
                println!("MONITOR: a thread sharing {} panicked", proto.name());
                std::process::exit(1);
            }
        }
    }
    println!("held {} threads={threads}", proto.name());
}

fn go(proto: &dyn Scenario, threads: usize, script: &[usize], arg: u64, drop_early: bool) {
    go2(proto, threads, script, arg, drop_early, 0)
}

fn main() {
    assert_thread_safe();
    // an interpreted run does one modular exponentiation in about 0.4 s
    let mode = std::env::args().nth(1).unwrap_or_default();
    let reps = if mode == "big" { 40 } else { 1 };
    for k in 0..reps {
        let a = 5 + k as u64 * 977;
        go(&FpScn::new(&BigUint::from(13u32)), 3, &[0], a, true);
        go(&FpScn::new(&BigUint::from(11u32)), 2, &[1], a, false);
        go(&Fp2Scn::new(&BigUint::from(7u32)), 2, &[0], a, true);
        // two instances of one field, operands in both orders
        go2(&FpScn::new(&BigUint::from(11u32)), 2, &[8], a, false, 1);
        if mode != "quick" {
            go2(&FpScn::new(&BigUint::from(13u32)), 3, &[8, 2, 8], a, true, 1);
            go2(&Fp2Scn::new(&BigUint::from(7u32)), 2, &[6, 2], a, false, 1);
            go2(&WScn::new(0), 2, &[9], a, false, 1);
            go2(&FpScn::new(&BigUint::from(13u32)), 2, &[2, 2], a, false, 1);
            go2(&MixScn::new(Box::new(FpScn::new(&BigUint::from(13u32))), Box::new(FpScn::new(&BigUint::from(29u32)))), 3, &[0, 1], a, false, 1);
            go(&FpScn::new(&BigUint::from(29u32)), 4, &[1, 0], a, true);
            go(&Fp2Scn::new(&BigUint::from(11u32)), 3, &[1, 5], a, false);
            go(&MScn::new(0), 2, &[0], a, true);
            go(&WScn::new(0), 3, &[0], a, false);
            go(&EScn::new(0), 3, &[0, 4], a, true);
        }
        if mode == "big" {
            go2(&MScn::new(1), 8, &[9, 2, 9], a, true, 1);
            go2(&EScn::new(1), 8, &[9, 6, 9], a, true, 1);
            go(&WScn::new(0), 4, &[0, 2, 4, 5], a, true);
            go(&EScn::new(0), 4, &[0, 2, 4, 6], a, true);
            go(&MScn::new(1), 8, &[0, 1], a, true);
            go(&WScn::new(1), 8, &[0, 8], a, true);
            let p = (BigUint::from(1u32) << 255usize) - 19u32;
            go(&FpScn::new(&p), 8, &[0, 1, 2, 3], a, true);
            go(&FpScn::new(&p), 8, &[1, 4, 5, 6], a, true);
        }
    }
    println!("MCONC-DONE");
}
