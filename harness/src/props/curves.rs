//! C08-C16: scalars, group laws, multiplication, membership, equality, codecs.
use super::fields::sqrt_ok;
use super::{many, sz};
use crate::cut::*;
use crate::gen::{self, big, Rng};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use redox_ecc::ops::Serialize;
use std::sync::{Arc, OnceLock};

/// Low-order points of a named curve (cached: plain data of the reference model).
pub fn named_torsion(name: &str) -> Vec<RP> {
    static T: OnceLock<Vec<(&'static str, OnceLock<Vec<RP>>)>> = OnceLock::new();
    let t = T.get_or_init(|| crate::named::NAMES.iter().map(|n| (*n, OnceLock::new())).collect());
    let (_, cell) = t.iter().find(|(n, _)| *n == name).unwrap();
    cell.get_or_init(|| torsion(&crate::named::rc(name))).clone()
}

fn kname(k: Kind) -> &'static str {
    match k {
        Kind::W => "Weierstrass",
        Kind::M => "Montgomery",
        Kind::E => "Edwards",
    }
}

/// Tiny law-admissible curves: every curve over the first primes, a sample later.
fn tiny_set(kind: Kind, th: bool) -> Vec<RC> {
    let mut v = vec![];
    let full: &[u64] = if th { &[5, 7, 11, 13] } else { &[5, 7] };
    let cap = |mut c: Vec<RC>, n: usize| {
        // deterministic thinning
        if c.len() > n {
            let step = c.len() / n + 1;
            c = c.into_iter().step_by(step).collect();
        }
        c
    };
    for p in full {
        v.extend(cap(tiny_curves(kind, *p), if th { 400 } else { 60 }));
    }
    for p in gen::small_primes(if th { 101 } else { 43 }) {
        if p > *full.last().unwrap() {
            v.extend(tiny_sample(kind, p, if th { 12 } else { 4 }, 77));
        }
    }
    v
}

fn seen_pt(rc: &RC, p: &RP) -> Vec<u8> {
    let mut v = rc.encode(p, false);
    v.extend(rc.a.to_bytes_le());
    v.extend(rc.b.to_bytes_le());
    v.extend(rc.f.p.to_bytes_le());
    v
}

/// A random curve for case `case`: named, special-prime or random-prime.
pub fn mixed_curve(ctx: &mut Ctx, kind: Kind, named: &[RC]) -> (RC, Vec<RP>) {
    match ctx.case % 4 {
        0 => {
            let rc = named[(ctx.case / 4) as usize % named.len()].clone();
            let t = named_torsion(rc.name);
            (rc, t)
        }
        k => {
            let p = if k == 1 {
                let sp: Vec<N> = gen::special_primes();
                if ctx.rng.one_in(12) {
                    ctx.hit("huge fields");
                    gen::any_special(&mut ctx.rng, |_| true)
                } else {
                    sp[(ctx.case / 4) as usize % sp.len()].clone()
                }
            } else {
                let bits = 4 + ctx.rng.below(300);
                gen::rand_prime(&mut ctx.rng, bits, |_| true)
            };
            let rc = random_curve(kind, &p, &mut ctx.rng);
            let mut t = vec![];
            match kind {
                Kind::M => t.push(RP::A(N::zero(), N::zero())),
                Kind::E => {
                    t.push(RP::A(N::zero(), rc.f.small(-1)));
                    t.extend(rc.with_coord(&N::zero()));
                }
                Kind::W => {}
            }
            (rc, t)
        }
    }
}

// ------------------------------------------------------------------ C08

pub fn scalar_is<C: Cut>(ctx: &mut Ctx, got: &C::S, n: &N, r: &N, what: impl Fn() -> String) -> R {
    let m = F::new(r);
    let be = lib!(ctx, got.to_bytes_be(), "to_bytes_be of {}", what());
    ensure!(ctx, be == m.be(n), "{:?} scalar mod {r}: {} encodes to {be:?}, expected {n} as {:?}", C::KIND, what(), m.be(n));
    Ok(())
}

pub fn scalar_full<C: Cut>(ctx: &mut Ctx, got: &C::S, n: &N, r: &N) -> R {
    scalar_is::<C>(ctx, got, n, r, || format!("{n}"))?;
    let m = F::new(r);
    let le = lib!(ctx, got.to_bytes_le(), "to_bytes_le");
    let mut w = m.be(n);
    w.reverse();
    ensure!(ctx, le == w, "{:?} scalar {n} mod {r} has little-endian form {le:?}", C::KIND);
    let s = lib!(ctx, got.to_string(), "printing");
    ensure!(ctx, s == n.to_string(), "{:?} scalar {n} mod {r} prints {s}", C::KIND);
    let rl = lib!(ctx, C::bits_rl(got), "iter_rl of {n}");
    let want: Vec<bool> = (0..n.bits()).map(|i| n.bit(i)).collect();
    ensure!(ctx, rl == want, "{:?} scalar {n} mod {r}: iter_rl yields {rl:?}", C::KIND);
    let lr = lib!(ctx, C::bits_lr(got), "iter_lr of {n}");
    let mut w = want.clone();
    w.reverse();
    ensure!(ctx, lr == w, "{:?} scalar {n} mod {r}: iter_lr yields {lr:?}", C::KIND);
    if ctx.rng.one_in(4) {
        let len = w.len();
        let (i, j) = match ctx.rng.below(3) {
            0 => (ctx.rng.below(len + 2), ctx.rng.below(70)),
            1 => (ctx.rng.below(len / 32 + 1) * 32, ctx.rng.below(34)),
            _ => (ctx.rng.below(3), ctx.rng.below(len + 2)),
        };
        for (lr, want) in [(true, &w), (false, &want)] {
            let v = lib!(ctx, C::bits_ways(got, lr, want, i, j), "bit iterators of {n}");
            if let Err(e) = v {
                ensure!(ctx, false, "{:?} scalar {n} mod {r}: {} of iter_{} disagrees with its digits", C::KIND, e, if lr { "lr" } else { "rl" });
            }
        }
        ctx.hit("iterators consumed in all ways");
    }
    if n.is_zero() {
        ctx.hit("bits of zero");
    }
    Ok(())
}

pub fn scalar_ops<C: Cut>(ctx: &mut Ctx, r: &N, a: &BigInt, b: &BigInt, k: usize) -> R {
    let m = F::new(r);
    let (x, y) = (m.lift(a), m.lift(b));
    let s = lib!(ctx, C::snew(a.clone(), r), "Scalar::new({a}, {r})");
    let t = lib!(ctx, C::snew(b.clone(), r), "Scalar::new({b}, {r})");
    scalar_is::<C>(ctx, &s, &x, r, || format!("Scalar::new({a})"))?;
    let v = lib!(ctx, C::sadd(k, &s, &t), "{a}+{b} mod {r}");
    scalar_is::<C>(ctx, &v, &m.add(&x, &y), r, || format!("{a}+{b}"))?;
    let v = lib!(ctx, C::ssub(k, &s, &t), "{a}-{b} mod {r}");
    scalar_is::<C>(ctx, &v, &m.sub(&x, &y), r, || format!("{a}-{b}"))?;
    let v = lib!(ctx, C::smul(k, &s, &t), "{a}*{b} mod {r}");
    scalar_is::<C>(ctx, &v, &m.mul(&x, &y), r, || format!("{a}*{b}"))?;
    let v = lib!(ctx, C::sneg(k, &s), "-({a}) mod {r}");
    scalar_is::<C>(ctx, &v, &m.neg(&x), r, || format!("-({a})"))?;
    if !y.is_zero() {
        let v = lib!(ctx, C::sdiv(k, &s, &t), "{a}/{b} mod {r}");
        scalar_is::<C>(ctx, &v, &m.div(&x, &y), r, || format!("{a}/{b}"))?;
        let v = lib!(ctx, C::sinv(1, &t), "1/{b} mod {r}");
        scalar_is::<C>(ctx, &v, &m.inv(&y), r, || format!("1/{b}"))?;
        ctx.hit("division");
        // results are full scalars too
        scalar_full::<C>(ctx, &v, &m.inv(&y), r)?;
    }
    ctx.seen(&[&[C::KIND as u8], &a.to_signed_bytes_le(), &b.to_signed_bytes_le(), &r.to_bytes_le()]);
    Ok(())
}

fn c08_for<C: Cut>(pl: &mut Plan, th: bool) {
    let mut t = vec![];
    for r in gen::small_primes(sz(th, 31, 79)) {
        for a in 0..r {
            t.push((r, a));
        }
    }
    let n = t.len() as u64;
    pl.job(format!("{} tiny orders", kname(C::KIND)), n, move |ctx| {
        let (r, a) = t[ctx.case as usize];
        let rn = big(r);
        let s = lib!(ctx, C::snew(BigInt::from(a), &rn), "Scalar::new({a}, {r})");
        scalar_full::<C>(ctx, &s, &big(a), &rn)?;
        for b in -(r as i64) - 1..2 * r as i64 + 2 {
            scalar_ops::<C>(ctx, &rn, &BigInt::from(a), &BigInt::from(b), (b & 3) as usize)?;
        }
        Ok(())
    });
    let named = named_rcs(C::KIND);
    pl.job(format!("{} large orders", kname(C::KIND)), many(th, 400, 12000), move |ctx| {
        let (r, crv) = if ctx.case % 2 == 0 {
            let rc = &named[(ctx.case / 2) as usize % named.len()];
            (rc.r.clone(), Some(Crv::<C>::new(ctx, rc)?))
        } else if ctx.rng.one_in(20) {
            ctx.hit("huge orders");
            (ctx.rng.pick(&gen::huge_primes()).clone(), None)
        } else if ctx.rng.one_in(6) {
            (gen::any_special(&mut ctx.rng, |_| true), None)
        } else {
            let bits = 2 + ctx.rng.below(560);
            (gen::rand_prime(&mut ctx.rng, bits, |_| true), None)
        };
        if r < big(3) {
            return Ok(());
        }
        for k in 0..8 {
            let a = scalar_int(&mut ctx.rng, &r);
            let b = if ctx.rng.one_in(3) {
                let x = F::new(&r).lift(&a);
                bi(&gen::partner(&mut ctx.rng, &r, &x))
            } else {
                scalar_int(&mut ctx.rng, &r)
            };
            ctx.sample(|| format!("r={r} a={a} b={b}"));
            scalar_ops::<C>(ctx, &r, &a, &b, k)?;
            let n = F::new(&r).lift(&a);
            let s = match &crv {
                Some(c) => {
                    let o = lib!(ctx, c.e.get_order(), "get_order");
                    ensure!(ctx, o == r, "order of {} is {o}", c.rc.desc());
                    c.scalar(ctx, &a)?
                }
                None => lib!(ctx, C::snew(a.clone(), &r), "Scalar::new"),
            };
            scalar_full::<C>(ctx, &s, &n, &r)?;
        }
        // chains of operations
        let m = F::new(&r);
        let mut v = lib!(ctx, C::snew(BigInt::one(), &r), "Scalar::new");
        let mut w = N::one();
        for step in 0..20 {
            let b = if ctx.rng.one_in(3) { gen::partner(&mut ctx.rng, &r, &w) } else { gen::elt(&mut ctx.rng, &r) };
            let t = lib!(ctx, C::snew(bi(&b), &r), "Scalar::new");
            let k = ctx.rng.below(4);
            let op = ctx.rng.below(5);
            (v, w) = match op {
                0 => (lib!(ctx, C::sadd(k, &v, &t), "chain +"), m.add(&w, &b)),
                1 => (lib!(ctx, C::ssub(k, &v, &t), "chain -"), m.sub(&w, &b)),
                2 => (lib!(ctx, C::smul(k, &v, &t), "chain *"), m.mul(&w, &b)),
                3 if !b.is_zero() => (lib!(ctx, C::sdiv(k, &v, &t), "chain /"), m.div(&w, &b)),
                _ => (lib!(ctx, C::sneg(k, &v), "chain neg"), m.neg(&w)),
            };
            scalar_full::<C>(ctx, &v, &w, &r)?;
            let _ = step;
        }
        Ok(())
    });
}

pub fn c08(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C08",
        "a case is one pair of integers used as scalars of one model (all pairs for tiny prime orders; structured, negative and oversized integers for named and random orders; operation chains); distinct = distinct (model, order, integers)",
    );
    pl.must_hit = vec!["bits of zero", "division", "iterators consumed in all ways"];
    c08_for::<W>(&mut pl, th);
    c08_for::<M>(&mut pl, th);
    c08_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C09-C11

pub fn law_pair<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, rp: &RP, q: &C::P, rq: &RP, k: usize) -> R {
    let d = c.rc.desc();
    let s = lib!(ctx, C::add(k, p, q), "{rp} + {rq} on {d}");
    c.expect(ctx, &s, &c.rc.add(rp, rq), || format!("{rp} + {rq} (operand form {k})"))?;
    let s = lib!(ctx, C::sub(k, p, q), "{rp} - {rq} on {d}");
    c.expect(ctx, &s, &c.rc.sub(rp, rq), || format!("{rp} - {rq} (operand form {k})"))?;
    ctx.seen(&[&seen_pt(&c.rc, rp), &seen_pt(&c.rc, rq), &[k as u8]]);
    if rp == rq {
        ctx.hit("P+P");
    }
    if *rp == c.rc.neg(rq) {
        ctx.hit("P+(-P)");
    }
    if c.rc.is_id(rp) || c.rc.is_id(rq) {
        ctx.hit("P+O");
    }
    Ok(())
}

fn low_order(rc: &RC, p: &RP) -> Option<u32> {
    let mut q = p.clone();
    for n in 1..=12 {
        if rc.is_id(&q) {
            return Some(n);
        }
        q = rc.add(&q, p);
    }
    None
}

/// Random operation history over a small pool of points.
fn history<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, special: &[RP], steps: usize, muls: bool) -> R {
    let d = c.rc.desc();
    let mut pool: Vec<(C::P, RP)> = vec![];
    for _ in 0..5 {
        let r = c.some_point(&mut ctx.rng, special);
        pool.push((c.pt(ctx, &r)?, r));
    }
    for step in 0..steps {
        let (i, j, o) = (ctx.rng.below(5), ctx.rng.below(5), ctx.rng.below(5));
        let k = ctx.rng.below(8);
        let (p, rp) = pool[i].clone();
        let (q, rq) = pool[j].clone();
        let (what, got, want) = match ctx.rng.below(13) {
            0..=2 => ("+", lib!(ctx, C::add(k, &p, &q), "{rp} + {rq} on {d}"), c.rc.add(&rp, &rq)),
            3 | 4 => ("-", lib!(ctx, C::sub(k, &p, &q), "{rp} - {rq} on {d}"), c.rc.sub(&rp, &rq)),
            5 => ("doubling", lib!(ctx, C::add(k, &p, &p), "{rp} + {rp} on {d}"), c.rc.add(&rp, &rp)),
            6 => ("negation", lib!(ctx, C::neg(k, &p), "-{rp} on {d}"), c.rc.neg(&rp)),
            7 => {
                // leads back to an already known element by another path
                let t = lib!(ctx, C::add(k, &p, &q), "{rp} + {rq} on {d}");
                ("(P+Q)-Q", lib!(ctx, C::sub(k, &t, &q), "({rp} + {rq}) - {rq} on {d}"), rp.clone())
            }
            8 => {
                let t = lib!(ctx, C::neg(k, &p), "-{rp} on {d}");
                ("P+(-P)", lib!(ctx, C::add(k, &t, &p), "-{rp} + {rp} on {d}"), c.rc.id())
            }
            9 if muls => {
                let n = scalar_int(&mut ctx.rng, &c.rc.r);
                let s = c.scalar(ctx, &n)?;
                ("scalar multiple", lib!(ctx, C::mul(k, &p, &s), "{n} * {rp} on {d}"), c.rc.mul(&rp, &n))
            }
            10 => {
                let r = c.some_point(&mut ctx.rng, special);
                ("fresh", c.pt(ctx, &r)?, r)
            }
            11 => {
                let t = lib!(ctx, C::sub(k, &p, &q), "{rp} - {rq} on {d}");
                ("(P-Q)+(Q+P)", {
                    let u = lib!(ctx, C::add(k, &q, &p), "{rq} + {rp} on {d}");
                    lib!(ctx, C::add(k, &t, &u), "({rp} - {rq}) + ({rq} + {rp}) on {d}")
                }, c.rc.add(&rp, &rp))
            }
            _ => ("Q+P", lib!(ctx, C::add(k, &q, &p), "{rq} + {rp} on {d}"), c.rc.add(&rq, &rp)),
        };
        if rp == rq {
            ctx.hit("P+P");
        }
        if rp == c.rc.neg(&rq) {
            ctx.hit("P+(-P)");
        }
        if c.rc.is_id(&rp) {
            ctx.hit("P+O");
        }
        ctx.seen(&[&seen_pt(&c.rc, &rp), &seen_pt(&c.rc, &rq), what.as_bytes()]);
        c.expect(ctx, &got, &want, || format!("step {step} of a history, {what} of {rp} and {rq}"))?;
        ctx.hit("history steps");
        pool[o] = (got, want);
    }
    Ok(())
}

fn law_jobs<C: Cut>(pl: &mut Plan, th: bool) {
    let tiny = tiny_set(C::KIND, th);
    let mut t = vec![];
    for rc in tiny {
        let pts = Arc::new(rc.enumerate());
        let rc = Arc::new(rc);
        for i in 0..pts.len() {
            t.push((rc.clone(), pts.clone(), i));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny curves, all pairs", n, move |ctx| {
        let (rc, pts, i) = &t[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let rp = &pts[*i];
        let p = c.pt(ctx, rp)?;
        let g = c.pt(ctx, &rc.g)?;
        let p2 = c.rescale(ctx, &p, &g)?;
        c.expect(ctx, &p2, rp, || format!("({rp} + G) - G"))?;
        let np = lib!(ctx, C::neg(*i, &p2), "-{rp} on {}", rc.desc());
        c.expect(ctx, &np, &rc.neg(rp), || format!("-{rp}"))?;
        let dbl = lib!(ctx, C::add(0, &p2, &p2), "{rp}+{rp} on {}", rc.desc());
        c.expect(ctx, &dbl, &rc.add(rp, rp), || format!("{rp} + {rp}, same object"))?;
        match low_order(rc, rp) {
            Some(2) => ctx.hit("points of order 2"),
            Some(4) => ctx.hit("points of order 4"),
            Some(8) => ctx.hit("points of order 8"),
            _ => {}
        }
        if rc.kind == Kind::M && !rc.b.is_one() {
            ctx.hit("B other than 1");
        }
        ctx.sample(|| format!("{} P={rp}", rc.desc()));
        for (j, rq) in pts.iter().enumerate() {
            let q = c.pt(ctx, rq)?;
            law_pair(ctx, &c, if j % 2 == 0 { &p } else { &p2 }, rp, &q, rq, j)?;
            let q2 = c.rescale(ctx, &q, &g)?;
            law_pair(ctx, &c, if j % 2 == 0 { &p2 } else { &p }, rp, &q2, rq, j + 1)?;
        }
        Ok(())
    });
    let tiny: Arc<Vec<RC>> = Arc::new(tiny_set(C::KIND, th));
    let ntiny = tiny.len() as u64;
    pl.job("tiny curves, histories", ntiny * many(th, 3, 20), move |ctx| {
        let rc = &tiny[(ctx.case % ntiny) as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let pts = rc.enumerate();
        history(ctx, &c, &pts, 60, true)
    });
    let named = named_rcs(C::KIND);
    pl.job("named and large curves, histories", many(th, 600, 12000), move |ctx| {
        let (rc, special) = mixed_curve(ctx, C::KIND, &named);
        let c = Crv::<C>::new(ctx, &rc)?;
        if rc.kind == Kind::M && !rc.b.is_one() {
            ctx.hit("B other than 1");
        }
        ctx.sample(|| rc.desc());
        for a in special.iter().take(12) {
            for b in special.iter().take(12) {
                let (p, q) = (c.pt(ctx, a)?, c.pt(ctx, b)?);
                law_pair(ctx, &c, &p, a, &q, b, ctx.case as usize)?;
                match low_order(&rc, a) {
                    Some(2) => ctx.hit("points of order 2"),
                    Some(4) => ctx.hit("points of order 4"),
                    Some(8) => ctx.hit("points of order 8"),
                    _ => {}
                }
            }
        }
        history(ctx, &c, &special, 30, false)
    });
}

const LAW_RULE: &str = "a case is one sum/difference/negation/doubling observed against the affine group law (all ordered pairs of points of tiny curves in plain and rescaled representations; random operation histories over tiny, named and random curves up to 521 bits); distinct = distinct (curve, operands, form or kind of step)";

pub fn c09(th: bool) -> Plan {
    let mut pl = Plan::new("C09", LAW_RULE);
    pl.must_hit = vec!["P+P", "P+(-P)", "P+O", "history steps"];
    law_jobs::<W>(&mut pl, th);
    pl
}

pub fn c10(th: bool) -> Plan {
    let mut pl = Plan::new("C10", LAW_RULE);
    pl.must_hit = vec!["P+P", "P+(-P)", "P+O", "history steps", "B other than 1", "points of order 2", "points of order 4"];
    law_jobs::<M>(&mut pl, th);
    pl
}

pub fn c11(th: bool) -> Plan {
    let mut pl = Plan::new("C11", LAW_RULE);
    pl.must_hit = vec!["P+P", "P+(-P)", "P+O", "history steps", "points of order 2", "points of order 4", "points of order 8"];
    law_jobs::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C12

pub fn mul_check<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, rp: &RP, n: &BigInt, form: usize) -> R {
    let d = c.rc.desc();
    let s = c.scalar(ctx, n)?;
    let want = c.rc.mul(rp, n);
    let q = lib!(ctx, C::mul(form, p, &s), "{n} * {rp} on {d} (operand form {form})");
    c.expect(ctx, &q, &want, || format!("{n} * {rp} (operand form {form})"))?;
    if c.rc.is_id(rp) {
        ctx.hit("multiple of the identity");
    }
    if F::new(&c.rc.r).lift(n).is_zero() {
        ctx.hit("zero scalar");
    }
    if n.sign() == num_bigint::Sign::Minus {
        ctx.hit("negative scalar");
    }
    ctx.seen(&[&seen_pt(&c.rc, rp), &n.to_signed_bytes_le(), &[form as u8]]);
    Ok(())
}

fn c12_for<C: Cut>(pl: &mut Plan, th: bool) {
    let tiny: Arc<Vec<RC>> = Arc::new(tiny_set(C::KIND, th).into_iter().step_by(if th { 1 } else { 3 }).collect());
    let n = tiny.len() as u64;
    let nm = kname(C::KIND);
    pl.job(format!("{nm} tiny curves, all points and scalars"), n, move |ctx| {
        let rc = &tiny[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let r = rc.r.to_u64_digits()[0] as i64;
        let g = c.pt(ctx, &rc.g)?;
        ctx.sample(|| rc.desc());
        for (i, rp) in rc.enumerate().iter().enumerate() {
            let p = c.pt(ctx, rp)?;
            let p = if i % 2 == 1 { c.rescale(ctx, &p, &g)? } else { p };
            for k in -r - 1..=2 * r + 1 {
                mul_check(ctx, &c, &p, rp, &BigInt::from(k), (k.rem_euclid(7)) as usize)?;
            }
        }
        Ok(())
    });
    let named = named_rcs(C::KIND);
    let nn = named.len() as u64;
    pl.job(format!("{nm} named curves"), nn * many(th, 5, 150), move |ctx| {
        let rc = &named[(ctx.case % nn) as usize];
        let tor = named_torsion(rc.name);
        let c = Crv::<C>::new(ctx, rc)?;
        let r = &rc.r;
        for k in 0..4 {
            let rp = c.some_point(&mut ctx.rng, &tor);
            let mut p = c.pt(ctx, &rp)?;
            if k % 2 == 1 {
                let o = c.some_point(&mut ctx.rng, &tor);
                let o = c.pt(ctx, &o)?;
                p = c.rescale(ctx, &p, &o)?;
            }
            let n = scalar_int(&mut ctx.rng, r);
            ctx.sample(|| format!("{} {n} * {rp}", rc.name));
            let form = ctx.rng.below(7);
            mul_check(ctx, &c, &p, &rp, &n, form)?;
        }
        let p = c.pt(ctx, &rc.g)?;
        for n in [BigInt::zero(), BigInt::one(), bi(r), bi(r) - 1, bi(r) + 1, BigInt::from(-1), BigInt::one() << (r.bits() - 1), (BigInt::one() << (r.bits() - 1)) - 1] {
            if th || ctx.rng.one_in(2) {
                let form = ctx.rng.below(7);
                mul_check(ctx, &c, &p, &rc.g, &n, form)?;
            }
        }
        let o = c.pt(ctx, &rc.id())?;
        let n = scalar_int(&mut ctx.rng, r);
        mul_check(ctx, &c, &o, &rc.id(), &n, 0)?;
        // distributivity and associativity on a point of order r
        let (j, k) = (scalar_int(&mut ctx.rng, r), scalar_int(&mut ctx.rng, r));
        let (sj, sk) = (c.scalar(ctx, &j)?, c.scalar(ctx, &k)?);
        let sum = lib!(ctx, C::sadd(0, &sj, &sk), "j+k");
        let prod = lib!(ctx, C::smul(0, &sj, &sk), "j*k");
        let lhs = lib!(ctx, C::mul(0, &p, &sum), "(j+k)*G");
        let jp = lib!(ctx, C::mul(1, &p, &sj), "j*G");
        let kp = lib!(ctx, C::mul(2, &p, &sk), "k*G");
        let rhs = lib!(ctx, C::add(0, &jp, &kp), "j*G+k*G");
        let jk = lib!(ctx, C::mul(4, &kp, &sj), "j*(k*G)");
        let pr = lib!(ctx, C::mul(0, &p, &prod), "(jk)*G");
        let w = c.rc.mul(&rc.g, &(&j + &k));
        c.expect(ctx, &lhs, &w, || format!("({j} + {k}) * G"))?;
        c.expect(ctx, &rhs, &w, || format!("{j} * G + {k} * G"))?;
        let w = c.rc.mul(&rc.g, &(&j * &k));
        c.expect(ctx, &jk, &w, || format!("{j} * ({k} * G)"))?;
        c.expect(ctx, &pr, &w, || format!("({j} * {k}) * G"))?;
        ctx.hit("distributivity and associativity");
        Ok(())
    });
    pl.job(format!("{nm} random curves and orders"), many(th, 200, 5000), move |ctx| {
        let bits = 4 + ctx.rng.below(150);
        let p = gen::rand_prime(&mut ctx.rng, bits, |_| true);
        let rc = random_curve(C::KIND, &p, &mut ctx.rng);
        let c = Crv::<C>::new(ctx, &rc)?;
        for _ in 0..3 {
            let rp = c.some_point(&mut ctx.rng, &[]);
            let p = c.pt(ctx, &rp)?;
            let n = scalar_int(&mut ctx.rng, &rc.r);
            let form = ctx.rng.below(7);
            mul_check(ctx, &c, &p, &rp, &n, form)?;
        }
        Ok(())
    });
}

pub fn c12(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C12",
        "a case is one scalar multiple compared with reference repeated addition (every point times every integer in [-r-1, 2r+1] on tiny curves; boundary, patterned, negative and oversized scalars times generic, torsion and rescaled points on named and random curves); distinct = distinct (curve, point, integer, operand form)",
    );
    pl.must_hit = vec!["multiple of the identity", "zero scalar", "negative scalar", "distributivity and associativity"];
    c12_for::<W>(&mut pl, th);
    c12_for::<M>(&mut pl, th);
    c12_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C13

/// A proper point: on the curve by the library's own query, and not the
/// degenerate all-zero triple (which compares equal to everything).
fn proper<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, what: impl Fn() -> String) -> R {
    let d = c.rc.desc();
    let on = lib!(ctx, c.e.is_on_curve(p), "is_on_curve({}) on {d}", what());
    ensure!(ctx, on, "on {d}: is_on_curve is false for {} = {}", what(), c.show(p));
    let (a, b) = (c.pt(ctx, &c.rc.id())?, c.pt(ctx, &c.rc.g)?);
    let deg = lib!(ctx, *p == a && *p == b, "comparison");
    ensure!(ctx, !deg, "on {d}: {} is degenerate (equals different points): {}", what(), c.show(p));
    // an affine point of the curve represents it
    let enc = lib!(ctx, p.encode(false), "encode");
    let bad = match c.rc.kind {
        Kind::E => c.rc.decode(&enc).is_none(),
        _ => enc.len() != 1 && c.rc.decode(&enc).is_none(),
    };
    ensure!(ctx, !bad, "on {d}: the affine coordinates of {} are not on the curve: {}", what(), c.show(p));
    Ok(())
}

fn ctor_check<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, x: &N, y: &N) -> R {
    let d = c.rc.desc();
    let on = c.rc.on_xy(x, y);
    let r = guarded(|| c.e.new_point(c.fe(x), c.fe(y)));
    match (on, r) {
        (true, Ok(p)) => {
            ctx.hit("accepted");
            ctx.seen(&[&seen_pt(&c.rc, &RP::A(x.clone(), y.clone()))]);
            let q = lib!(ctx, c.e.is_on_curve(&p), "is_on_curve");
            ensure!(ctx, q, "on {d}: is_on_curve is false for the point ({x},{y})");
            Ok(())
        }
        (true, Err(e)) => {
            ensure!(ctx, false, "on {d}: new_point({x},{y}) was refused ({e}) although the point is on the curve");
            Ok(())
        }
        (false, Ok(_)) => {
            ensure!(ctx, false, "on {d}: new_point({x},{y}) was accepted although it is not on the curve");
            Ok(())
        }
        (false, Err(_)) => {
            ctx.stats.evals += 1;
            ctx.hit("refused");
            ctx.seen(&[&seen_pt(&c.rc, &RP::A(x.clone(), y.clone()))]);
            Ok(())
        }
    }
}

fn c13_for<C: Cut>(pl: &mut Plan, th: bool) {
    let nm = kname(C::KIND);
    let mut v = vec![];
    for p in gen::small_primes(sz(th, 19, 43)) {
        if p >= 5 {
            v.extend(any_tiny(C::KIND, p, sz(th, 8, 30) as usize, 5));
        }
    }
    let v = Arc::new(v);
    let n = v.len() as u64;
    let v2 = v.clone();
    pl.job(format!("{nm} tiny curves, all coordinate pairs"), n, move |ctx| {
        let rc = &v2[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let p = rc.f.p.to_u64_digits()[0];
        for x in 0..p {
            for y in 0..p {
                ctor_check(ctx, &c, &big(x), &big(y))?;
            }
        }
        Ok(())
    });
    pl.job(format!("{nm} tiny curves, membership across curves"), n, move |ctx| {
        let rc = &v[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let p = rc.f.p.to_u64_digits()[0];
        // points of law-admissible curves, in plain and rescaled form
        for (i, mut ro) in tiny_sample(C::KIND, p, 3, ctx.case).into_iter().enumerate() {
            if i > 0 {
                // agreeing in everything but the equation
                ro.r = rc.r.clone();
                ro.h = rc.h.clone();
            }
            let o = Crv::<C>::new(ctx, &ro)?;
            let g = o.pt(ctx, &ro.g)?;
            for rp in ro.enumerate() {
                let q = o.pt(ctx, &rp)?;
                let q2 = o.rescale(ctx, &q, &g)?;
                for (q, how) in [(q, "plain"), (q2, "rescaled")] {
                    let own = lib!(ctx, o.e.is_on_curve(&q), "is_on_curve");
                    ensure!(ctx, own, "on {}: is_on_curve is false for its own point {rp} ({how})", ro.desc());
                    let got = lib!(ctx, c.e.is_on_curve(&q), "is_on_curve of a foreign point");
                    if !rc.on(&rp) {
                        ensure!(ctx, !got, "{} claims the point {rp} ({how}) of {}", rc.desc(), ro.desc());
                        ctx.hit("foreign points rejected");
                    }
                    ctx.seen(&[&seen_pt(rc, &rp), &seen_pt(&ro, &rp), how.as_bytes()]);
                }
            }
        }
        Ok(())
    });
    let named = named_rcs(C::KIND);
    let named2 = named.clone();
    let named3 = named.clone();
    pl.job(format!("{nm} large curves, membership across curves"), many(th, 120, 3000), move |ctx| {
        let (rc, special) = mixed_curve(ctx, C::KIND, &named3);
        let c = Crv::<C>::new(ctx, &rc)?;
        // curves over the same field, agreeing in everything else but the equation
        let mut others = super::misc::variants(ctx, &rc);
        others.extend(named3.iter().filter(|o| o.name != rc.name).cloned());
        others.retain(|o| o.f.p == rc.f.p && law_applies(o.kind, &o.f, &o.a, &o.b, &o.s));
        for ro in &mut others {
            if ro.name.is_empty() {
                ro.r = rc.r.clone();
                ro.h = rc.h.clone();
            }
        }
        others.push(rc.clone());
        for ro in others {
            let o = Crv::<C>::new(ctx, &ro)?;
            let g = o.pt(ctx, &ro.g)?;
            for rp in [ro.id(), ro.g.clone(), some_point(&ro, &mut ctx.rng, &[]), rand_point(&ro, &mut ctx.rng)] {
                let q = o.pt(ctx, &rp)?;
                let q2 = o.rescale(ctx, &q, &g)?;
                let mut q3 = q2.clone();
                lib!(ctx, C::normalize(&mut q3), "normalize");
                for (q, how) in [(q, "plain"), (q2, "rescaled"), (q3, "normalised")] {
                    let got = lib!(ctx, c.e.is_on_curve(&q), "is_on_curve of a foreign point");
                    if !rc.on(&rp) {
                        ensure!(ctx, !got, "{} claims the point {rp} ({how}) of {}", rc.desc(), ro.desc());
                        ctx.hit("foreign points rejected");
                    } else if (&ro.a, &ro.b) == (&rc.a, &rc.b) {
                        ensure!(ctx, got, "{} does not claim its point {rp} ({how})", rc.desc());
                    }
                    ctx.seen(&[&seen_pt(&rc, &rp), &seen_pt(&ro, &rp), how.as_bytes()]);
                }
            }
        }
        let _ = special;
        Ok(())
    });
    pl.job(format!("{nm} large curves, near misses"), many(th, 600, 15000), move |ctx| {
        let (rc, special) = mixed_curve(ctx, C::KIND, &named);
        let c = Crv::<C>::new(ctx, &rc)?;
        let p = rc.f.p.clone();
        let f = &rc.f;
        for _ in 0..4 {
            let RP::A(x, y) = some_point(&rc, &mut ctx.rng, &special) else { continue };
            ctx.sample(|| format!("{} ({x},{y})", rc.desc()));
            ctor_check(ctx, &c, &x, &y)?;
            ctor_check(ctx, &c, &y, &x)?;
            ctor_check(ctx, &c, &f.neg(&x), &y)?;
            ctor_check(ctx, &c, &x, &f.neg(&y))?;
            ctor_check(ctx, &c, &f.neg(&x), &f.neg(&y))?;
            let bit = ctx.rng.below(p.bits() as usize);
            ctor_check(ctx, &c, &((&x ^ (N::one() << bit)) % &p), &y)?;
            ctor_check(ctx, &c, &x, &((&y ^ (N::one() << bit)) % &p))?;
            ctor_check(ctx, &c, &f.add(&x, &N::one()), &y)?;
            ctor_check(ctx, &c, &x, &f.sub(&y, &N::one()))?;
            let (a, b) = (gen::elt(&mut ctx.rng, &p), gen::elt(&mut ctx.rng, &p));
            ctor_check(ctx, &c, &a, &b)?;
            ctor_check(ctx, &c, &N::zero(), &b)?;
            ctor_check(ctx, &c, &a, &N::zero())?;
            for _ in 0..3 {
                if let Some((x, y)) = near_miss(&rc, &mut ctx.rng) {
                    ctor_check(ctx, &c, &x, &y)?;
                    ctx.hit("structured near misses");
                }
            }
        }
        ctor_check(ctx, &c, &N::zero(), &N::zero())?;
        ctor_check(ctx, &c, &N::zero(), &N::one())?;
        ctor_check(ctx, &c, &N::zero(), &f.small(-1))?;
        ctor_check(ctx, &c, &N::one(), &N::zero())
    });
    pl.job(format!("{nm} results of operations"), many(th, 300, 6000), move |ctx| {
        let (rc, special) = if ctx.case % 3 == 0 {
            let p = *ctx.rng.pick(&[5u64, 7, 11, 13, 19, 23, 29, 31, 37]);
            let mut v = tiny_sample(C::KIND, p, 3, ctx.case);
            let Some(rc) = v.pop() else { return Ok(()) };
            let pts = rc.enumerate();
            (rc, pts)
        } else {
            mixed_curve(ctx, C::KIND, &named2)
        };
        let c = Crv::<C>::new(ctx, &rc)?;
        let o = lib!(ctx, c.e.identity(), "identity");
        proper(ctx, &c, &o, || "identity()".into())?;
        let g = lib!(ctx, c.e.get_generator(), "get_generator");
        proper(ctx, &c, &g, || "get_generator()".into())?;
        let mut pool: Vec<C::P> = vec![o, g];
        for _ in 0..3 {
            let r = c.some_point(&mut ctx.rng, &special);
            pool.push(c.pt(ctx, &r)?);
        }
        let kf = sqrt_ok((&rc.f.p % 16u32).to_u32_digits().first().copied().unwrap_or(0));
        for step in 0..24 {
            let (i, j, o, k) = (ctx.rng.below(5), ctx.rng.below(5), ctx.rng.below(5), ctx.rng.below(7));
            let (p, q) = (pool[i].clone(), pool[j].clone());
            let (what, v) = match ctx.rng.below(7) {
                0 | 1 => ("a sum", lib!(ctx, C::add(k, &p, &q), "+")),
                2 => ("a difference", lib!(ctx, C::sub(k, &p, &q), "-")),
                3 => ("a negative", lib!(ctx, C::neg(k, &p), "neg")),
                4 => ("a normalised point", {
                    let mut t = p.clone();
                    lib!(ctx, C::normalize(&mut t), "normalize");
                    t
                }),
                5 => ("a multiple", {
                    let n = if rc.f.p.bits() > 200 { BigInt::from(ctx.rng.below(1 << 20)) } else { scalar_int(&mut ctx.rng, &rc.r) };
                    let s = c.scalar(ctx, &n)?;
                    lib!(ctx, C::mul(k, &p, &s), "{n}*P")
                }),
                _ => ("a decoded point", {
                    let compress = kf && ctx.rng.bool();
                    if !kf && rc.kind == Kind::E {
                        continue;
                    }
                    let b = lib!(ctx, p.encode(compress), "encode");
                    match lib!(ctx, c.e.decode(&b), "decode") {
                        Ok(v) => v,
                        Err(_) => continue,
                    }
                }),
            };
            proper(ctx, &c, &v, || format!("{what} (step {step})"))?;
            ctx.hit("results of operations");
            pool[o] = v;
        }
        Ok(())
    });
}

pub fn c13(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C13",
        "a case is one coordinate pair offered to new_point, one membership query, or one point returned by an operation (all pairs on tiny nonsingular curves; near misses of points on large ones; operation histories); distinct = distinct (curve, coordinates, representation)",
    );
    pl.must_hit = vec!["accepted", "refused", "foreign points rejected", "results of operations"];
    c13_for::<W>(&mut pl, th);
    c13_for::<M>(&mut pl, th);
    c13_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C14

/// Several internal representations of the same element.
fn reps<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, rp: &RP, via: &[RP]) -> R<Vec<(C::P, &'static str)>> {
    let d = c.rc.desc();
    let p = c.pt(ctx, rp)?;
    let mut v = vec![(p.clone(), "affine")];
    for rq in via {
        let q = c.pt(ctx, rq)?;
        let t = c.rescale(ctx, &p, &q)?;
        let mut n = t.clone();
        lib!(ctx, C::normalize(&mut n), "normalize on {d}");
        v.push((t, "(P+Q)-Q"));
        v.push((n, "normalised (P+Q)-Q"));
        // Q + (P - Q) with the difference built from affine coordinates
        let diff = c.pt(ctx, &c.rc.sub(rp, rq))?;
        v.push((lib!(ctx, C::add(1, &diff, &q), "(P-Q)+Q on {d}"), "(P-Q)+Q"));
    }
    let n = lib!(ctx, C::neg(0, &p), "neg on {d}");
    v.push((lib!(ctx, C::neg(1, &n), "neg on {d}"), "-(-P)"));
    v.push((p.clone(), "clone"));
    Ok(v)
}

fn order2(rc: &RC, p: &RP) -> bool {
    !rc.is_id(p) && rc.is_id(&rc.add(p, p))
}

fn predicates<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, rp: &RP, how: &str) -> R {
    let d = c.rc.desc();
    let z = lib!(ctx, p.is_zero(), "is_zero({rp}) on {d}");
    ensure!(ctx, z == c.rc.is_id(rp), "on {d}: is_zero({rp}) = {z} (computed as {how})");
    if z {
        ctx.hit("identity recognised");
    }
    if let Some(t) = lib!(ctx, C::two_torsion(p), "is_two_torsion({rp}) on {d}") {
        let w = order2(&c.rc, rp);
        ensure!(ctx, t == w, "on {d}: is_two_torsion({rp}) = {t} (computed as {how})");
        if w {
            ctx.hit("two-torsion recognised");
        }
    }
    Ok(())
}

fn c14_for<C: Cut>(pl: &mut Plan, th: bool) {
    let nm = kname(C::KIND);
    let tiny: Arc<Vec<RC>> = Arc::new(tiny_set(C::KIND, th).into_iter().step_by(if th { 1 } else { 3 }).collect());
    let n = tiny.len() as u64;
    pl.job(format!("{nm} tiny curves, all pairs and representations"), n, move |ctx| {
        let rc = &tiny[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let pts = rc.enumerate();
        let mut all = vec![];
        for (i, rp) in pts.iter().enumerate() {
            let via = vec![rc.g.clone(), pts[(i * 7 + 3) % pts.len()].clone()];
            for (p, how) in reps(ctx, &c, rp, &via)? {
                predicates(ctx, &c, &p, rp, how)?;
                all.push((p, i, how));
            }
        }
        ctx.sample(|| format!("{}: {} points, {} representations", rc.desc(), pts.len(), all.len()));
        for (a, i, ha) in &all {
            for (b, j, hb) in &all {
                let e = lib!(ctx, a == b, "comparison");
                ctx.stats.evals += 1;
                if e != (i == j) {
                    ensure!(ctx, false, "on {}: {} ({ha}) == {} ({hb}) is {e}", rc.desc(), pts[*i], pts[*j]);
                }
                let ne = lib!(ctx, a != b, "comparison");
                ensure!(ctx, ne != e, "on {}: == and != agree for {} and {}", rc.desc(), pts[*i], pts[*j]);
            }
            ctx.seen(&[&seen_pt(rc, &pts[*i]), ha.as_bytes()]);
        }
        Ok(())
    });
    let named = named_rcs(C::KIND);
    pl.job(format!("{nm} large curves"), many(th, 250, 6000), move |ctx| {
        let (rc, special) = mixed_curve(ctx, C::KIND, &named);
        let c = Crv::<C>::new(ctx, &rc)?;
        let d = rc.desc();
        let rp = some_point(&rc, &mut ctx.rng, &special);
        let mut els = vec![rp.clone(), rc.neg(&rp), rc.id(), rc.add(&rp, &rp), rc.g.clone(), rc.neg(&rc.g)];
        if let RP::A(x, y) = &rp {
            // confusable coordinates
            els.extend(rc.with_coord(x));
            els.extend(rc.with_coord(y));
            els.extend(rc.with_coord(&rc.f.neg(x)));
        }
        if let Some(t) = special.first() {
            els.push(rc.add(&rp, t));
            els.push(t.clone());
        }
        let mut all = vec![];
        for e in els.iter() {
            let via = vec![some_point(&rc, &mut ctx.rng, &special)];
            for (p, how) in reps(ctx, &c, e, &via)? {
                predicates(ctx, &c, &p, e, how)?;
                let mut q = p.clone();
                lib!(ctx, C::normalize(&mut q), "normalize({e}) on {d}");
                let same = lib!(ctx, q == p && p == q, "comparison");
                ensure!(ctx, same, "on {d}: normalising {e} (computed as {how}) changed it into {}", c.show(&q));
                predicates(ctx, &c, &q, e, "normalised")?;
                // a normalised point keeps working as an operand
                let g = c.pt(ctx, &rc.g)?;
                let s1 = lib!(ctx, C::add(0, &q, &g), "normalised {e} + G on {d}");
                let s2 = lib!(ctx, C::add(0, &p, &g), "{e} + G on {d}");
                let same = lib!(ctx, s1 == s2, "comparison");
                ensure!(ctx, same, "on {d}: {e} (computed as {how}) and its normalisation have different sums with G");
                lib!(ctx, C::normalize(&mut q), "normalize({e}) twice on {d}");
                let same = lib!(ctx, q == p, "comparison");
                ensure!(ctx, same, "on {d}: normalising {e} twice changed it");
                ctx.hit("normalised");
                ctx.seen(&[&seen_pt(&rc, e), how.as_bytes()]);
                all.push((p, e.clone(), how));
            }
        }
        for (a, ra, ha) in &all {
            for (b, rb, hb) in &all {
                let e = lib!(ctx, a == b, "comparison");
                ensure!(ctx, e == (ra == rb), "on {d}: {ra} ({ha}) == {rb} ({hb}) is {e}");
            }
        }
        Ok(())
    });
}

pub fn c14(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C14",
        "a case is one comparison or predicate on points in one of several representations reached by different computations (all pairs of all points of tiny curves; generic, negated, same-coordinate and torsion points of named and random curves); distinct = distinct (curve, element, way of computing it)",
    );
    pl.must_hit = vec!["identity recognised", "two-torsion recognised", "normalised"];
    c14_for::<W>(&mut pl, th);
    c14_for::<M>(&mut pl, th);
    c14_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C15

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn encode_check<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, rp: &RP, how: &str, can_sqrt: bool) -> R {
    let d = c.rc.desc();
    for compress in [false, true] {
        let b = lib!(ctx, p.encode(compress), "encode({rp}, {compress}) on {d}");
        let w = c.rc.encode(rp, compress);
        ensure!(ctx, b == w, "on {d}: encode({rp}, {compress}) (computed as {how}) = {}, expected {}", hexs(&b), hexs(&w));
        let needs_root = (compress || c.rc.kind == Kind::E) && *rp != RP::O;
        if can_sqrt || !needs_root {
            match lib!(ctx, c.e.decode(&b), "decode({}) on {d}", hexs(&b)) {
                Ok(q) => c.expect(ctx, &q, rp, || format!("decode({}), the encoding of {rp},", hexs(&b)))?,
                Err(e) => ensure!(ctx, false, "on {d}: decoding {}, the encoding of {rp}, fails: {e}", hexs(&b)),
            }
            ctx.hit("round trips");
        }
        ctx.seen(&[&seen_pt(&c.rc, rp), how.as_bytes(), &[compress as u8]]);
    }
    if c.rc.is_id(rp) {
        ctx.hit("identity encoded");
    }
    Ok(())
}

/// primes at the byte and bit boundaries of the encodings
const EDGE_PRIMES: [u64; 14] = [127, 131, 251, 257, 509, 521, 32749, 32771, 65521, 65537, 8388593, 8388617, 16777213, 4294967291];

/// Any nonsingular curve over an edge-of-byte prime.
fn edge_curve(kind: Kind, rng: &mut Rng, k: usize) -> RC {
    let p = big(EDGE_PRIMES[k % EDGE_PRIMES.len()]);
    random_curve(kind, &p, rng)
}

fn c15_for<C: Cut>(pl: &mut Plan, th: bool) {
    let nm = kname(C::KIND);
    let tiny: Arc<Vec<RC>> = Arc::new(tiny_set(C::KIND, th).into_iter().step_by(if th { 1 } else { 2 }).collect());
    let n = tiny.len() as u64;
    pl.job(format!("{nm} tiny curves, all points"), n, move |ctx| {
        let rc = &tiny[ctx.case as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let ok = sqrt_ok((&rc.f.p % 16u32).to_u32_digits()[0]);
        let pts = rc.enumerate();
        for (i, rp) in pts.iter().enumerate() {
            let via = vec![rc.g.clone(), pts[(i * 5 + 1) % pts.len()].clone()];
            for (p, how) in reps(ctx, &c, rp, &via)? {
                encode_check(ctx, &c, &p, rp, how, ok)?;
            }
        }
        Ok(())
    });
    let named = named_rcs(C::KIND);
    pl.job(format!("{nm} large curves"), many(th, 400, 10000), move |ctx| {
        let (rc, special) = if ctx.case % 3 == 2 {
            (edge_curve(C::KIND, &mut ctx.rng, (ctx.case / 3) as usize), vec![])
        } else {
            mixed_curve(ctx, C::KIND, &named)
        };
        let c = Crv::<C>::new(ctx, &rc)?;
        let ok = sqrt_ok((&rc.f.p % 16u32).to_u32_digits()[0]);
        ctx.sample(|| rc.desc());
        let mut els = vec![rc.id(), rc.g.clone()];
        for _ in 0..3 {
            els.push(some_point(&rc, &mut ctx.rng, &special));
        }
        // coordinates with leading zero bytes
        for t in 0..60u64 {
            let v = rc.with_coord(&big(t));
            if !v.is_empty() {
                els.extend(v);
                ctx.hit("short coordinates");
                break;
            }
        }
        if let Some(t) = special.first() {
            els.push(t.clone());
            ctx.hit("low-order points");
        }
        for rp in els {
            let via = vec![some_point(&rc, &mut ctx.rng, &special)];
            for (p, how) in reps(ctx, &c, &rp, &via)? {
                encode_check(ctx, &c, &p, &rp, how, ok)?;
            }
            encode_check(ctx, &c, &c.pt(ctx, &rc.neg(&rp))?, &rc.neg(&rp), "affine", ok)?;
        }
        Ok(())
    });
}

pub fn c15(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C15",
        "a case is one point in one representation encoded in one form and decoded again (all points of tiny curves; identity, low-order, short-coordinate and random points of named, random and byte-boundary-prime curves); distinct = distinct (curve, element, way of computing it, form)",
    );
    pl.must_hit = vec!["round trips", "identity encoded", "short coordinates", "low-order points"];
    c15_for::<W>(&mut pl, th);
    c15_for::<M>(&mut pl, th);
    c15_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C16

pub fn decode_check<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, b: &[u8]) -> R {
    let d = c.rc.desc();
    let want = c.rc.decode(b);
    let got = lib!(ctx, c.e.decode(b), "decode({}) on {d}", hexs(b));
    match (want, got) {
        (Some(q), Ok(p)) => {
            c.expect(ctx, &p, &q, || format!("decode({})", hexs(b)))?;
            let compress = b[0] == 2 || b[0] == 3;
            let again = lib!(ctx, p.encode(compress), "encode");
            ensure!(ctx, again == b, "on {d}: decoding {} and encoding again gives {}", hexs(b), hexs(&again));
            ctx.hit("accepted");
        }
        (None, Err(_)) => {
            ctx.stats.evals += 1;
            ctx.hit("rejected");
        }
        (Some(q), Err(e)) => ensure!(ctx, false, "on {d}: decode({}) fails ({e}) although it is the encoding of {q}", hexs(b)),
        (None, Ok(p)) => ensure!(ctx, false, "on {d}: decode({}) is accepted as {} although it is not a canonical encoding of a point", hexs(b), c.show(&p)),
    }
    ctx.seen(&[b, &c.rc.a.to_bytes_le(), &c.rc.b.to_bytes_le(), &c.rc.f.p.to_bytes_le()]);
    Ok(())
}

fn mutate(rng: &mut Rng, rc: &RC, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = rc.f.size();
    for _ in 0..1 + rng.below(2) {
        match rng.below(16) {
            0 if !v.is_empty() => {
                let i = rng.below(v.len());
                v[i] ^= 1 << rng.below(8);
            }
            1 if !v.is_empty() => v[0] = *rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x80, 0xff]),
            2 if !v.is_empty() => {
                let l = v.len() - 1;
                v[l] ^= 0x80;
            }
            3 => v.truncate(rng.below(v.len() + 1)),
            4 => v.push(*rng.pick(&[0u8, 1, 0xff])),
            5 => v.insert(0, *rng.pick(&[0u8, 2, 3, 4])),
            6 if v.len() > n && rc.kind != Kind::E => {
                // first coordinate plus p: same residue, not canonical
                let x = N::from_bytes_be(&v[1..=n]) + &rc.f.p;
                let mut xb = x.to_bytes_be();
                if xb.len() > n {
                    xb = vec![0xff; n];
                }
                while xb.len() < n {
                    xb.insert(0, 0);
                }
                v[1..=n].copy_from_slice(&xb);
            }
            7 if v.len() == 2 * n + 1 && rc.kind != Kind::E => {
                let y = N::from_bytes_be(&v[n + 1..]);
                let y = if rng.bool() { y + &rc.f.p } else { rc.f.neg(&(y % &rc.f.p)) };
                let mut yb = y.to_bytes_be();
                if yb.len() > n {
                    yb = vec![0xff; n];
                }
                while yb.len() < n {
                    yb.insert(0, 0);
                }
                v[n + 1..].copy_from_slice(&yb);
            }
            8 if rc.kind == Kind::E && v.len() == rc.enc_size() => {
                let top = v[v.len() - 1] & 0x80;
                let l = v.len() - 1;
                v[l] &= 0x7f;
                let y = N::from_bytes_le(&v) + &rc.f.p;
                let mut yb = y.to_bytes_le();
                yb.resize(v.len(), 0);
                yb.truncate(v.len());
                yb[l] |= top;
                v = yb;
            }
            9 => v.iter_mut().for_each(|x| *x = 0),
            10 => v.iter_mut().for_each(|x| *x = 0xff),
            11 if v.len() > 1 => {
                // a small or near-p coordinate
                let c = match rng.below(3) {
                    0 => big(rng.below(6) as u64),
                    1 => &rc.f.p - big(rng.below(6) as u64),
                    _ => &rc.f.p + big(rng.below(6) as u64),
                };
                if rc.kind == Kind::E {
                    let mut yb = c.to_bytes_le();
                    yb.resize(rc.enc_size(), 0);
                    if rng.bool() {
                        *yb.last_mut().unwrap() |= 0x80;
                    }
                    v = yb;
                } else {
                    let mut xb = c.to_bytes_be();
                    while xb.len() < n {
                        xb.insert(0, 0);
                    }
                    xb.truncate(n);
                    let l = (1 + n).min(v.len());
                    v[1..l].copy_from_slice(&xb[..l - 1]);
                }
            }
            12 => {
                let l = match rng.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => n + 1,
                    3 => 2 * n + 1,
                    4 => rc.enc_size(),
                    _ => rng.below(2 * n + 4),
                };
                v.resize(l, 0);
            }
            13 => {
                let l = v.len();
                v = rng.bytes(l);
                if l > 0 && rng.bool() {
                    v[0] = *rng.pick(&[2u8, 3, 4]);
                }
            }
            14 if v.len() == 2 * n + 1 => v.truncate(n + 1),
            _ => {
                if v.len() > 1 {
                    let i = 1 + rng.below(v.len() - 1);
                    v[i] = v[i].wrapping_add(1);
                }
            }
        }
    }
    v
}

fn c16_for<C: Cut>(pl: &mut Plan, th: bool) {
    let nm = kname(C::KIND);
    let mut v = vec![];
    for p in [5u64, 7, 11, 13, 19, 23, 29, 61, 101, 127, 131, 163, 251] {
        v.extend(any_tiny(C::KIND, p, if th { 6 } else { 2 }, 11));
    }
    let v = Arc::new(v);
    let n = v.len() as u64;
    let v1 = v.clone();
    pl.job(format!("{nm} tiny curves, every string of up to two bytes"), n * 9, move |ctx| {
        let rc = &v1[(ctx.case / 9) as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let part = ctx.case % 9;
        if part == 8 {
            decode_check(ctx, &c, &[])?;
            for b in 0..=255u8 {
                decode_check(ctx, &c, &[b])?;
            }
            return Ok(());
        }
        // two bytes: tags of interest fully, the rest thinned in quick runs
        for b0 in (part * 32)..(part * 32 + 32) {
            let full = ctx.thorough || b0 < 8 || rc.kind == Kind::E;
            for b1 in 0..=255u32 {
                if full || b1 % 17 == 0 {
                    decode_check(ctx, &c, &[b0 as u8, b1 as u8])?;
                }
            }
        }
        Ok(())
    });
    if C::KIND != Kind::E {
        pl.job(format!("{nm} tiny curves, three-byte strings"), n * 16, move |ctx| {
            let rc = &v[(ctx.case / 16) as usize];
            let c = Crv::<C>::new(ctx, rc)?;
            let p = rc.f.p.to_u64_digits()[0];
            let lo = (ctx.case % 16) * 16;
            for x in lo..lo + 16 {
                for y in 0..256u64 {
                    // all pairs around the field, thinner far above it
                    if x <= p + 2 && y <= p + 2 && (ctx.thorough || p < 40 || (x * 7 + y) % 5 == 0) || (x + y) % 23 == 0 {
                        decode_check(ctx, &c, &[4, x as u8, y as u8])?;
                    }
                    if (x * 31 + y) % 29 == 0 {
                        let t = *ctx.rng.pick(&[0u8, 1, 2, 3, 5, 6, 7]);
                        decode_check(ctx, &c, &[t, x as u8, y as u8])?;
                    }
                }
            }
            Ok(())
        });
    }
    let named = named_rcs(C::KIND);
    pl.job(format!("{nm} large curves, mutated encodings"), many(th, 800, 30000), move |ctx| {
        let (rc, special) = if ctx.case % 3 == 2 {
            (edge_curve(C::KIND, &mut ctx.rng, (ctx.case / 3) as usize), vec![])
        } else {
            mixed_curve(ctx, C::KIND, &named)
        };
        if !sqrt_ok((&rc.f.p % 16u32).to_u32_digits()[0]) {
            return Ok(());
        }
        let c = Crv::<C>::new(ctx, &rc)?;
        for k in 0..8 {
            let rp = some_point(&rc, &mut ctx.rng, &special);
            let b = rc.encode(&rp, ctx.rng.bool());
            if k == 0 {
                decode_check(ctx, &c, &b)?;
            }
            let m = mutate(&mut ctx.rng, &rc, &b);
            ctx.sample(|| format!("{} {}", rc.desc(), hexs(&m)));
            decode_check(ctx, &c, &m)?;
            if let Some((x, y)) = near_miss(&rc, &mut ctx.rng) {
                let b = rc.encode(&RP::A(x, y), ctx.rng.bool());
                decode_check(ctx, &c, &b)?;
            }
        }
        Ok(())
    });
    pl.job(format!("{nm} curves made for a coordinate"), many(th, 500, 15000), move |ctx| {
        // the value whose root is the other coordinate is structured, square or not
        let p = if ctx.case % 2 == 0 {
            gen::any_special(&mut ctx.rng, sqrt_ok)
        } else {
            let bits = 5 + ctx.rng.below(390);
            gen::rand_prime(&mut ctx.rng, bits, sqrt_ok)
        };
        let (x, mut w) = (gen::elt(&mut ctx.rng, &p), gen::elt(&mut ctx.rng, &p));
        let f = F::new(&p);
        if ctx.rng.one_in(3) {
            w = f.sqr(&w);
        }
        let x = match C::KIND {
            // 1 - y^2 is structured, up to a factor which shows in a wrong root
            Kind::E if ctx.rng.bool() => {
                let k = match f.sqrt(&f.small(-1)) {
                    Some(i) => f.sub(&if ctx.rng.bool() { f.neg(&i) } else { i }, &N::one()),
                    None => f.small(2),
                };
                f.sqrt(&f.add(&N::one(), &f.div(&x, &k))).unwrap_or(x)
            }
            _ => x,
        };
        let Some(rc) = curve_with(C::KIND, &p, &mut ctx.rng, &x, &w) else { return Ok(()) };
        let c = Crv::<C>::new(ctx, &rc)?;
        for o in [N::one(), N::zero(), f.small(2), f.small(-1)] {
            let q = if C::KIND == Kind::E { RP::A(o, x.clone()) } else { RP::A(x.clone(), o) };
            decode_check(ctx, &c, &rc.encode(&q, true))?;
        }
        ctx.hit(if f.is_square(&w) { "structured squares" } else { "structured non-squares" });
        Ok(())
    });
}

pub fn c16(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C16",
        "a case is one byte string decoded and judged against the reference set of canonical encodings (every string of length up to two and the uncompressed three-byte strings for tiny curves; structured mutations of valid encodings for named, random and byte-boundary-prime curves); distinct = distinct (curve, string)",
    );
    pl.must_hit = vec!["accepted", "rejected", "structured squares", "structured non-squares"];
    c16_for::<W>(&mut pl, th);
    c16_for::<M>(&mut pl, th);
    c16_for::<E>(&mut pl, th);
    pl
}
