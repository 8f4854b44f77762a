//! C27, second half: results depend on the whole value of the operands and on the
//! structure they belong to, never on what was computed before. Operations run in
//! shuffled sequences over operands which are easily mistaken for one another, in
//! structures which are easily mistaken for one another, forwards and backwards;
//! every result is compared with the reference, and choices the reference leaves
//! open (which root) with the first answer.
use super::curves::{decode_check, encode_check, law_pair, mul_check, scalar_full, scalar_ops};
use super::fields::{self, conv_case, fp2_case, fp2_pow, fp2_unary, group_case, mk2, pow_case, ring_ops, sqrt_ok, G, N2};
use super::maps;
use super::misc::variants;
use super::many;
use crate::cut::*;
use crate::gen::{self, Rng};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::field::{Field, Sgn0, Sqrt};
use redox_ecc::ops::Serialize;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::Fp2;
use redox_ecc::{montgomery, weierstrass};
use std::collections::HashMap;

/// Values below `m` which share parts of their representation with `x`.
pub fn alike(rng: &mut Rng, x: &N, m: &N, n: usize) -> Vec<N> {
    let one = N::one();
    let bits = m.bits() as usize;
    let mut v = vec![x.clone(), (m - x) % m];
    let mut tries = 0;
    while v.len() < n && tries < 20 * n {
        tries += 1;
        let w = *rng.pick(&[8usize, 16, 32, 32, 64, 64, 64, 128]);
        let c = match rng.below(9) {
            // the low words agree
            0 | 1 if bits > w + 1 => x ^ (rng.bits(bits - w) << w),
            // the high words agree
            2 if bits > w + 1 => x ^ rng.bits(w),
            // both ends agree
            3 if bits > 2 * w + 2 => x ^ (rng.bits(bits - 2 * w) << w),
            // one bit differs
            4 => x ^ (&one << rng.below(bits)),
            // the sum of the words agrees
            5 if bits > w + 8 => x + rng.bits(bits.saturating_sub(w + 1).min(40)) * ((&one << w) - 1u32),
            // the same digits, shifted
            6 => {
                let s = *rng.pick(&[1usize, 8, 32, 64]);
                if rng.bool() {
                    x << s
                } else {
                    x >> s
                }
            }
            // the same bytes in another order
            7 => {
                let mut b = x.to_bytes_be();
                b.reverse();
                N::from_bytes_be(&b)
            }
            // the same length
            _ => rng.bits((x.bits() as usize).max(1)) | (&one << (x.bits() as usize).max(1)),
        };
        let c = if c < *m { c } else { c % m };
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

/// What a sequence is judged on: everything (C27), or what one property says; the
/// other operations then only disturb.
#[derive(Clone, Copy)]
pub struct Judge(&'static str);

impl Judge {
    fn on(&self, id: &str) -> bool {
        self.0 == "C27" || self.0 == id
    }
    fn ask(&self, id: &str, r: R) -> R {
        match r {
            Err(crate::mon::Fail::Violation(_)) if !self.on(id) => Ok(()),
            r => r,
        }
    }
}

fn law_id(k: Kind) -> &'static str {
    match k {
        Kind::W => "C09",
        Kind::M => "C10",
        Kind::E => "C11",
    }
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

/// Neighbours stay together in every other sequence.
fn reorder<T>(rng: &mut Rng, v: &mut [T]) {
    match rng.below(4) {
        0 | 1 => shuffle(rng, v),
        2 => {
            let k = rng.below(v.len().max(1));
            v.rotate_left(k);
        }
        _ => {}
    }
}

/// One operation over all operands, forwards and backwards, with no other library
/// call in between; the results are judged afterwards.
fn in_a_row<T, O>(ctx: &mut Ctx, mut v: Vec<T>, op: impl Fn(&T) -> O, mut judge: impl FnMut(&mut Ctx, &T, O) -> R) -> R {
    reorder(&mut ctx.rng, &mut v);
    let mut out = vec![];
    for x in v.iter().chain(v.iter().rev()) {
        out.push((x, guarded(|| op(x))));
    }
    for (x, r) in out {
        match r {
            Ok(r) => judge(ctx, x, r)?,
            Err(e) => ensure!(ctx, false, "library panicked {e} in a row of calls of one operation"),
        }
    }
    ctx.hit("one operation in a row");
    ctx.hit("look-alike sequences, both ways");
    Ok(())
}

/// The whole sequence forwards, then backwards.
fn both_ways<T>(ctx: &mut Ctx, v: Vec<T>, f: impl FnMut(&mut Ctx, &T) -> R) -> R {
    both_ways_as(ctx, v, true, f)
}

fn both_ways_as<T>(ctx: &mut Ctx, mut v: Vec<T>, mix: bool, mut f: impl FnMut(&mut Ctx, &T) -> R) -> R {
    if mix {
        reorder(&mut ctx.rng, &mut v);
    }
    for x in v.iter().chain(v.iter().rev()) {
        f(ctx, x)?;
    }
    ctx.hit("look-alike sequences, both ways");
    Ok(())
}

fn m16(p: &N) -> u32 {
    (p % 16u32).to_u32_digits().first().copied().unwrap_or(0)
}

/// The first observed answer is the answer.
struct First(HashMap<Vec<u8>, Vec<u8>>);

impl First {
    fn same(&mut self, ctx: &mut Ctx, key: &[&[u8]], got: Vec<u8>, what: impl Fn() -> String) -> R {
        let k = key.join(&b"/"[..]);
        match self.0.get(&k) {
            None => {
                self.0.insert(k, got);
                Ok(())
            }
            Some(w) => {
                let ok = *w == got;
                ctx.check(ok, || format!("{} changed its answer after other operations", what()))
            }
        }
    }
}

fn fp_seq(ctx: &mut Ctx, j: Judge) -> R {
    let p = fields::big_prime(ctx, 300, |_| true);
    let roots = sqrt_ok(m16(&p));
    let q = gen::near_prime(&mut ctx.rng, &p, |m| sqrt_ok(m) == roots).unwrap_or_else(|| p.clone());
    let mut fs: Vec<(Fp, F)> = vec![];
    for n in [&p, &q, &p] {
        fs.push((lib!(ctx, Fp::new(n.clone()), "Fp::new"), F::new(n)));
    }
    let small = if p < q { &p } else { &q };
    let x = gen::elt(&mut ctx.rng, small);
    let vals = alike(&mut ctx.rng, &x, small, 7);
    let mut seq = vec![];
    for i in 0..14usize {
        let (a, b) = (ctx.rng.pick(&vals).clone(), ctx.rng.pick(&vals).clone());
        seq.push((i % 3, a, b));
    }
    ctx.sample(|| format!("mod {p} and {q}: {vals:?}"));
    if ctx.rng.bool() {
        return fp_row(ctx, j, &fs, seq, roots);
    }
    let mut first = First(HashMap::new());
    both_ways(ctx, seq, |ctx, (i, a, b)| {
        let (f, m) = &fs[*i];
        let k = ctx.rng.below(4);
        let (x, y) = (lib!(ctx, f.elt(bi(a)), "elt"), lib!(ctx, f.elt(bi(b)), "elt"));
        j.ask("C01", ring_ops(ctx, f, m, &x, &y, a, b, k))?;
        j.ask("C02", group_case(ctx, f, m, a, b, k))?;
        // one exponentiation per visit: a look-alike exponent
        let e = if ctx.rng.one_in(3) { -bi(b) } else { bi(b) };
        j.ask("C02", pow_case(ctx, f, m, a, &e))?;
        j.ask("C04", conv_case(ctx, f, m, &e))?;
        let s = guarded(|| x.sgn0());
        if j.on("C07") {
            ensure!(ctx, s == Ok(m.sgn(a)), "mod {}: sgn0({a}) = {s:?}", m.p);
        }
        let s = guarded(|| x.is_square());
        let sq = m.is_square(a);
        if j.on("C03") {
            ensure!(ctx, s == Ok(sq), "mod {}: is_square({a}) = {s:?} after other operations", m.p);
        } else if roots {
            let _ = guarded(|| x.sqrt());
        }
        if roots && sq && j.on("C03") {
            let r = lib!(ctx, x.sqrt(), "sqrt({a}) mod {}", m.p);
            let v = BigUint::from_bytes_be(&lib!(ctx, r.to_bytes_be(), "encoding"));
            ensure!(ctx, v < m.p && m.sqr(&v) == *a, "mod {}: sqrt({a}) = {v} after other operations", m.p);
            first.same(ctx, &[&m.p.to_bytes_le(), &a.to_bytes_le()], v.to_bytes_le(), || format!("sqrt({a}) mod {}", m.p))?;
            ctx.hit("look-alike roots");
        }
        Ok(())
    })
}

/// What one operation answered.
enum Out<E> {
    E(E),
    T(bool),
    S(i32),
}

const FP_OPS: [(&str, &str); 13] = [
    ("C01", "a + b"), ("C01", "a - b"), ("C01", "a * b"), ("C01", "-a"), ("C01", "a ^ 2"),
    ("C02", "1 / a"), ("C02", "a / b"), ("C02", "a ^ b"),
    ("C03", "is_square(a)"), ("C03", "sqrt(a)"),
    ("C04", "elt(a)"), ("C07", "sgn0(a)"), ("C04", "a == b"),
];

fn pick_op(rng: &mut Rng, j: Judge, ops: &[(&str, &'static str)]) -> Option<&'static str> {
    let v: Vec<&'static str> = ops.iter().filter(|(id, _)| j.on(id)).map(|o| o.1).collect();
    if v.is_empty() {
        return None;
    }
    Some(v[rng.below(v.len())])
}

fn fp_row(ctx: &mut Ctx, j: Judge, fs: &[(Fp, F)], seq: Vec<(usize, N, N)>, roots: bool) -> R {
    let Some(op) = pick_op(&mut ctx.rng, j, &FP_OPS) else { return Ok(()) };
    if op == "sqrt(a)" && !roots {
        return Ok(());
    }
    let mut items = vec![];
    for (i, a, b) in seq {
        let (f, m) = &fs[i];
        let a = if op == "sqrt(a)" && !m.is_square(&a) { m.sqr(&a) } else { a };
        let (x, y) = (lib!(ctx, f.elt(bi(&a)), "elt({a})"), lib!(ctx, f.elt(bi(&b)), "elt({b})"));
        items.push((f, m, a, b, x, y));
    }
    in_a_row(
        ctx,
        items,
        |(f, m, a, b, x, y)| match op {
            "a + b" => Out::E(x + y),
            "a - b" => Out::E(x - y),
            "a * b" => Out::E(x * y),
            "-a" => Out::E(-x),
            "a ^ 2" => Out::E(x ^ 2u32),
            "1 / a" => Out::E(1u32 / x),
            "a / b" => Out::E(x / y),
            "a ^ b" => Out::E(x ^ b),
            "is_square(a)" => Out::T(x.is_square()),
            "sqrt(a)" => Out::E(x.sqrt()),
            "elt(a)" => Out::E(f.elt(bi(a) + bi(&m.p) * bi(b))),
            "sgn0(a)" => Out::S(x.sgn0()),
            _ => Out::T(x == y),
        },
        |ctx, (f, m, a, b, _, _), got| {
            let want = match op {
                "a + b" => m.add(a, b),
                "a - b" => m.sub(a, b),
                "a * b" => m.mul(a, b),
                "-a" => m.neg(a),
                "a ^ 2" => m.sqr(a),
                "1 / a" => m.inv(a),
                "a / b" => m.mul(a, &m.inv(b)),
                "a ^ b" => m.pow(a, &bi(b)),
                _ => a.clone(),
            };
            match got {
                Out::E(e) if op == "sqrt(a)" => {
                    let v = BigUint::from_bytes_be(&lib!(ctx, e.to_bytes_be(), "encoding"));
                    ensure!(ctx, v < m.p && m.sqr(&v) == *a, "mod {}: sqrt({a}) = {v} in a row of square roots", m.p);
                    Ok(())
                }
                Out::E(e) => fields::is_fp(ctx, f, m, &e, &want, || format!("{op} for a = {a}, b = {b} in a row of such calls")),
                Out::S(s) => ctx.check(s == m.sgn(a), || format!("mod {}: sgn0({a}) = {s} in a row of such calls", m.p)),
                Out::T(t) => {
                    let want = if op == "a == b" { a == b } else { m.is_square(a) };
                    ctx.check(t == want, || format!("mod {}: {op} = {t} for a = {a}, b = {b} in a row of such calls", m.p))
                }
            }
        },
    )
}

const FP2_OPS: [(&str, &str); 11] = [
    ("C05", "a + b"), ("C05", "a - b"), ("C05", "a * b"), ("C05", "-a"), ("C05", "a ^ 2"), ("C05", "1 / a"), ("C05", "a / b"),
    ("C05", "a ^ e"), ("C06", "is_square(a)"), ("C06", "sqrt(a)"), ("C07", "sgn0(a)"),
];

fn fp2_row(ctx: &mut Ctx, j: Judge, fs: &[(Fp2, G)], seq: Vec<(usize, N2, N2)>) -> R {
    let Some(op) = pick_op(&mut ctx.rng, j, &FP2_OPS) else { return Ok(()) };
    let mut items = vec![];
    for (i, a, b) in seq {
        let (f, g) = &fs[i];
        let a = match ctx.rng.below(4) {
            0 => (a.0.clone(), g.0.neg(&a.1)),
            1 => (a.1.clone(), a.0.clone()),
            _ => a,
        };
        let a = if op == "sqrt(a)" && !g.is_square(&a) { g.mul(&a, &a) } else { a };
        let (x, y) = (mk2(ctx, f, &a)?, mk2(ctx, f, &b)?);
        let e = &b.0 % 65536u32;
        items.push((f, g, a, b, e, x, y));
    }
    in_a_row(
        ctx,
        items,
        |(_, _, _, _, e, x, y)| match op {
            "a + b" => Out::E(x + y),
            "a - b" => Out::E(x - y),
            "a * b" => Out::E(x * y),
            "-a" => Out::E(-x),
            "a ^ 2" => Out::E(x ^ 2u32),
            "1 / a" => Out::E(1u32 / x),
            "a / b" => Out::E(x / y),
            "a ^ e" => Out::E(x ^ e),
            "is_square(a)" => Out::T(x.is_square()),
            "sqrt(a)" => Out::E(x.sqrt()),
            _ => Out::S(x.sgn0()),
        },
        |ctx, (f, g, a, b, e, x, _), got| {
            let want = match op {
                "a + b" => g.add(a, b),
                "a - b" => g.sub(a, b),
                "a * b" => g.mul(a, b),
                "-a" => g.neg(a),
                "a ^ 2" => g.mul(a, a),
                "1 / a" => g.inv(a),
                "a / b" => g.mul(a, &g.inv(b)),
                "a ^ e" => g.pow(a, &bi(e)),
                _ => a.clone(),
            };
            match got {
                Out::E(r) if op == "sqrt(a)" => {
                    let ok = lib!(ctx, &r * &r == *x, "checking the root");
                    ctx.check(ok, || format!("GF({})^2: sqrt({a:?}) is not a root in a row of square roots", g.0.p))
                }
                Out::E(r) => fields::is_fp2(ctx, f, g, &r, &want, || format!("{op} for a = {a:?}, b = {b:?} in a row of such calls")),
                Out::S(s) => {
                    let w = if a.0.is_zero() { g.0.sgn(&a.1) } else { g.0.sgn(&a.0) };
                    ctx.check(s == w, || format!("GF({})^2: sgn0({a:?}) = {s} in a row of such calls", g.0.p))
                }
                Out::T(t) => ctx.check(t == g.is_square(a), || format!("GF({})^2: is_square({a:?}) = {t} in a row of such calls", g.0.p)),
            }
        },
    )
}

fn fp2_seq(ctx: &mut Ctx, j: Judge) -> R {
    let p = fields::big_prime(ctx, 200, |m| m % 4 == 3);
    let q = gen::near_prime(&mut ctx.rng, &p, |m| m % 4 == 3).unwrap_or_else(|| p.clone());
    let mut fs: Vec<(Fp2, G)> = vec![];
    for n in [&p, &q, &p] {
        fs.push((lib!(ctx, Fp2::new(n.clone()), "Fp2::new"), G(F::new(n))));
    }
    let small = if p < q { &p } else { &q };
    let x = gen::elt(&mut ctx.rng, small);
    let mut vals = alike(&mut ctx.rng, &x, small, 5);
    vals.push(N::zero());
    let mut seq = vec![];
    for i in 0..12usize {
        let mut two = || -> N2 { (ctx.rng.pick(&vals).clone(), ctx.rng.pick(&vals).clone()) };
        seq.push((i % 3, two(), two()));
    }
    if ctx.rng.bool() {
        return fp2_row(ctx, j, &fs, seq);
    }
    let mut first = First(HashMap::new());
    both_ways(ctx, seq, |ctx, (i, u, v)| {
        let (f, g) = &fs[*i];
        let k = ctx.rng.below(4);
        // conjugates and swapped coordinates are look-alikes, too
        let u = &match ctx.rng.below(4) {
            0 => (u.0.clone(), g.0.neg(&u.1)),
            1 => (u.1.clone(), u.0.clone()),
            _ => u.clone(),
        };
        j.ask("C05", fp2_case(ctx, f, g, u, v, k))?;
        j.ask("C05", fp2_unary(ctx, f, g, u, k))?;
        j.ask("C05", fp2_pow(ctx, f, g, u, &bi(&(&v.0 % 65536u32))))?;
        let x = mk2(ctx, f, u)?;
        let s = guarded(|| x.sgn0());
        if j.on("C07") {
            let w = if u.0.is_zero() { g.0.sgn(&u.1) } else { g.0.sgn(&u.0) };
            ensure!(ctx, s == Ok(w), "GF({})^2: sgn0({u:?}) = {s:?} after other operations", g.0.p);
        }
        if !j.on("C06") {
            let _ = guarded(|| (x.is_square(), x.sqrt()));
            return Ok(());
        }
        let sq = g.is_square(u);
        let s = lib!(ctx, x.is_square(), "is_square");
        ensure!(ctx, s == sq, "GF({})^2: is_square({u:?}) = {s} after other operations", g.0.p);
        if sq {
            let r = lib!(ctx, x.sqrt(), "sqrt");
            let ok = lib!(ctx, &r * &r == x, "checking the root");
            ensure!(ctx, ok, "GF({})^2: sqrt({u:?}) is not a root after other operations", g.0.p);
            let b = lib!(ctx, r.to_bytes_be(), "encoding");
            first.same(ctx, &[&g.0.p.to_bytes_le(), &g.be(u)], b, || format!("sqrt({u:?}) in GF({})^2", g.0.p))?;
            ctx.hit("look-alike roots");
        }
        Ok(())
    })
}

fn scalar_seq<C: Cut>(ctx: &mut Ctx) -> R {
    let bits = 8 + ctx.rng.below(300);
    let r = gen::rand_prime(&mut ctx.rng, bits, |_| true);
    let mut rs = vec![r.clone()];
    for _ in 0..2 {
        rs.extend(gen::near_prime(&mut ctx.rng, &r, |_| true));
    }
    let small = rs.iter().min().unwrap().clone();
    let x = gen::elt(&mut ctx.rng, &small);
    let vals = alike(&mut ctx.rng, &x, &small, 6);
    let mut seq = vec![];
    // every pair under every order, some negative
    for a in &vals {
        for b in &vals {
            if ctx.rng.one_in(3) {
                for r in &rs {
                    seq.push((r.clone(), bi(a), if ctx.rng.one_in(4) { -bi(b) } else { bi(b) }));
                }
            }
        }
    }
    if ctx.rng.bool() {
        return scalar_row::<C>(ctx, seq);
    }
    both_ways(ctx, seq, |ctx, (r, a, b)| {
        let k = ctx.rng.below(4);
        scalar_ops::<C>(ctx, r, a, b, k)?;
        let n = F::new(r).lift(a);
        let s = lib!(ctx, C::snew(bi(&n), r), "Scalar::new");
        scalar_full::<C>(ctx, &s, &n, r)
    })
}

fn scalar_row<C: Cut>(ctx: &mut Ctx, seq: Vec<(N, BigInt, BigInt)>) -> R {
    let op = *ctx.rng.pick(&["a + b", "a - b", "a * b", "-a", "a / b", "1 / b", "new"]);
    let mut items = vec![];
    for (r, a, b) in seq {
        if F::new(&r).lift(&b).is_zero() {
            continue;
        }
        let s = lib!(ctx, C::snew(a.clone(), &r), "Scalar::new({a}, {r})");
        let t = lib!(ctx, C::snew(b.clone(), &r), "Scalar::new({b}, {r})");
        items.push((r, a, b, s, t));
    }
    let k = ctx.rng.below(4);
    in_a_row(
        ctx,
        items,
        |(r, _, b, s, t)| match op {
            "a + b" => C::sadd(k, s, t),
            "a - b" => C::ssub(k, s, t),
            "a * b" => C::smul(k, s, t),
            "-a" => C::sneg(k, s),
            "a / b" => C::sdiv(k, s, t),
            "1 / b" => C::sinv(1, t),
            _ => C::snew(b.clone(), r),
        },
        |ctx, (r, a, b, ..), got| {
            let m = F::new(r);
            let (x, y) = (m.lift(a), m.lift(b));
            let want = match op {
                "a + b" => m.add(&x, &y),
                "a - b" => m.sub(&x, &y),
                "a * b" => m.mul(&x, &y),
                "-a" => m.neg(&x),
                "a / b" => m.div(&x, &y),
                "1 / b" => m.inv(&y),
                _ => y,
            };
            super::curves::scalar_is::<C>(ctx, &got, &want, r, || format!("{op} for a = {a}, b = {b} in a row of such calls"))
        },
    )
}

/// Points of `rc` which share coordinates or parts of coordinates.
fn alike_points(ctx: &mut Ctx, rc: &RC) -> Vec<RP> {
    let mut v = vec![rc.g.clone(), rc.neg(&rc.g), rc.id()];
    let p = rand_point(rc, &mut ctx.rng);
    v.push(rc.neg(&p));
    if let RP::A(x, y) = &p {
        for c in alike(&mut ctx.rng, x, &rc.f.p, 8).into_iter().chain(alike(&mut ctx.rng, y, &rc.f.p, 4)) {
            v.extend(rc.with_coord(&c));
        }
    }
    v.push(p);
    v.truncate(12);
    // points which curves with one coefficient in common share
    v.extend(rc.with_coord(&N::zero()));
    v.extend(rc.with_coord(&N::one()));
    v
}

fn point_seq<C: Cut>(ctx: &mut Ctx, named: &[RC], j: Judge) -> R {
    let rc = if ctx.case % 6 == 0 {
        named[(ctx.case / 6) as usize % named.len()].clone()
    } else {
        let bits = 5 + ctx.rng.below(200);
        let roots = j.0 == "C16" || ctx.rng.bool();
        let p = gen::rand_prime(&mut ctx.rng, bits, |m| !roots || sqrt_ok(m));
        random_curve(C::KIND, &p, &mut ctx.rng)
    };
    let mut rcs = vec![rc.clone()];
    rcs.extend(variants(ctx, &rc).into_iter().filter(|o| law_applies(o.kind, &o.f, &o.a, &o.b, &o.s)));
    rcs.truncate(4);
    let mut cs: Vec<(Crv<C>, Vec<RP>, Vec<BigInt>)> = vec![];
    let long = rc.f.p.bits() > 200;
    for o in &rcs {
        let c = Crv::<C>::new(ctx, o)?;
        let pts = alike_points(ctx, o);
        let top = if long { gen::big(1 << 24) } else { o.r.clone() };
        let k = gen::elt(&mut ctx.rng, &top);
        let ks = alike(&mut ctx.rng, &k, &top, 4).iter().map(bi).collect();
        cs.push((c, pts, ks));
    }
    let mut seq = vec![];
    for (i, (c, pts, ks)) in cs.iter().enumerate() {
        for _ in 0..5 {
            seq.push((i, ctx.rng.pick(pts).clone(), ctx.rng.pick(pts).clone(), ctx.rng.pick(ks).clone()));
        }
        // the same operands on every curve they belong to
        for (j, (o, ..)) in cs.iter().enumerate().skip(i + 1) {
            let both: Vec<&RP> = pts.iter().filter(|q| o.rc.f.p == c.rc.f.p && !o.rc.is_id(q) && o.rc.on(q)).collect();
            for _ in 0..2 {
                if both.is_empty() {
                    break;
                }
                let (p, q) = ((*ctx.rng.pick(&both)).clone(), (*ctx.rng.pick(&both)).clone());
                let q = if ctx.rng.bool() { p.clone() } else { q };
                let k = ctx.rng.pick(ks).clone();
                let (a, b) = if ctx.rng.bool() { (i, j) } else { (j, i) };
                seq.push((a, p.clone(), q.clone(), k.clone()));
                seq.push((b, p, q, k));
                ctx.hit("operands shared by curves");
            }
        }
    }
    ctx.sample(|| format!("{} and {} others", rc.desc(), rcs.len() - 1));
    if ctx.rng.bool() {
        return point_row(ctx, j, &cs, seq);
    }
    both_ways(ctx, seq, |ctx, (i, rp, rq, k)| {
        let c = &cs[*i].0;
        let can = sqrt_ok(m16(&c.rc.f.p));
        let form = ctx.rng.below(28);
        let (mut p, q) = (c.pt(ctx, rp)?, c.pt(ctx, rq)?);
        if form & 1 == 1 {
            let g = c.pt(ctx, &c.rc.g)?;
            p = c.rescale(ctx, &p, &g)?;
        }
        let law = law_id(C::KIND);
        j.ask(law, law_pair(ctx, c, &p, rp, &q, rq, form % 4))?;
        let n = guarded(|| C::neg(form, &p));
        if j.on(law) {
            let n = lib!(ctx, n.as_ref().unwrap().clone(), "-{rp}");
            c.expect(ctx, &n, &c.rc.neg(rp), || format!("-{rp}"))?;
        }
        j.ask("C12", mul_check(ctx, c, &p, rp, k, form % 7))?;
        j.ask("C15", encode_check(ctx, c, &p, rp, "look-alike", can))?;
        if can {
            let b = c.rc.encode(rq, form & 2 == 2);
            j.ask("C16", decode_check(ctx, c, &b))?;
        }
        let on = guarded(|| c.e.is_on_curve(&p));
        let eq = guarded(|| p == q);
        let (z, zq) = (guarded(|| p.is_zero()), c.rc.is_id(rp));
        if j.on("C13") {
            ensure!(ctx, on == Ok(true), "on {}: is_on_curve({rp}) = {on:?} after other operations", c.rc.desc());
        }
        if j.on("C14") {
            ensure!(ctx, eq == Ok(rp == rq) && z == Ok(zq), "on {}: {rp} == {rq} gives {eq:?}, is_zero {z:?} after other operations", c.rc.desc());
        }
        ctx.hit("look-alike curves and points");
        Ok(())
    })
}

enum POut<P> {
    P(P),
    B(Vec<u8>),
    D(Option<P>),
    T(bool),
}

type PointItem = (usize, RP, RP, BigInt);

fn point_row<C: Cut>(ctx: &mut Ctx, j: Judge, cs: &[(Crv<C>, Vec<RP>, Vec<BigInt>)], seq: Vec<PointItem>) -> R {
    let law = law_id(C::KIND);
    let ops = [
        (law, "P + Q"), (law, "P - Q"), (law, "-P"), (law, "P + P"), ("C12", "k * P"), ("C12", "k * P"), ("C15", "encode(P)"),
        ("C15", "encode(P, compressed)"), ("C16", "decode"), ("C16", "decode compressed"), ("C13", "is_on_curve"), ("C13", "new_point"),
        ("C14", "P == Q"), ("C14", "is_zero"),
    ];
    let Some(op) = pick_op(&mut ctx.rng, j, &ops) else { return Ok(()) };
    let mut items = vec![];
    for (i, rp, rq, k) in seq {
        let c = &cs[i].0;
        if op.starts_with("decode") && !sqrt_ok(m16(&c.rc.f.p)) {
            continue;
        }
        if op == "new_point" || op.starts_with("decode") {
            // the coordinates of a point of any of the curves
            let o = ctx.rng.pick(cs);
            let a = if ctx.rng.bool() || o.0.rc.f.p != c.rc.f.p { rp } else { ctx.rng.pick(&o.1).clone() };
            if op == "new_point" && a == RP::O {
                continue;
            }
            let (p, s) = (c.pt(ctx, &c.rc.g)?, c.scalar(ctx, &k)?);
            let b = c.rc.encode(&a, op == "decode compressed");
            items.push((c, a.clone(), rq.clone(), k.clone(), p.clone(), p, s, b.clone()));
            // the same on every curve over the field, one after the other
            let mut at: Vec<usize> = (0..cs.len()).filter(|o| *o != i && cs[*o].0.rc.f.p == c.rc.f.p).collect();
            shuffle(&mut ctx.rng, &mut at);
            for o in at {
                let c = &cs[o].0;
                let (p, s) = (c.pt(ctx, &c.rc.g)?, c.scalar(ctx, &k)?);
                items.push((c, a.clone(), rq.clone(), k.clone(), p.clone(), p, s, b.clone()));
            }
            continue;
        }
        if op == "is_on_curve" && ctx.rng.bool() {
            // a point of one curve, asked about on every curve over the field
            let (p, s) = (c.pt(ctx, &rp)?, c.scalar(ctx, &k)?);
            let g = c.pt(ctx, &c.rc.g)?;
            let p = if ctx.rng.bool() { c.rescale(ctx, &p, &g)? } else { p };
            let mut at: Vec<usize> = (0..cs.len()).filter(|o| cs[*o].0.rc.f.p == c.rc.f.p).collect();
            shuffle(&mut ctx.rng, &mut at);
            for o in at {
                items.push((&cs[o].0, rp.clone(), rq.clone(), k.clone(), p.clone(), p.clone(), s.clone(), vec![]));
            }
            continue;
        }
        let (mut p, mut q) = (c.pt(ctx, &rp)?, c.pt(ctx, &rq)?);
        if ctx.rng.one_in(3) {
            let g = c.pt(ctx, &c.rc.g)?;
            p = c.rescale(ctx, &p, &g)?;
            q = c.rescale(ctx, &q, &g)?;
        }
        let s = c.scalar(ctx, &k)?;
        let b = c.rc.encode(&rp, op == "decode compressed");
        items.push((c, rp, rq, k, p, q, s, b));
    }
    let form = ctx.rng.below(28);
    in_a_row(
        ctx,
        items,
        |(c, rp, _, _, p, q, s, b)| match op {
            "P + Q" => POut::P(C::add(form, p, q)),
            "P - Q" => POut::P(C::sub(form, p, q)),
            "-P" => POut::P(C::neg(form, p)),
            "P + P" => POut::P(C::add(form, p, p)),
            "k * P" => POut::P(C::mul(form, p, s)),
            "encode(P)" => POut::B(p.encode(false)),
            "encode(P, compressed)" => POut::B(p.encode(true)),
            "is_on_curve" => POut::T(c.e.is_on_curve(p)),
            "new_point" => POut::D(guarded(|| c.pt_raw(rp)).ok()),
            "P == Q" => POut::T(p == q),
            "is_zero" => POut::T(p.is_zero()),
            _ => POut::D(c.e.decode(b).ok()),
        },
        |ctx, (c, rp, rq, k, _, _, _, b), got| {
            let what = || format!("{op} for P = {rp}, Q = {rq}, k = {k} in a row of such calls");
            ctx.hit("look-alike curves and points");
            match got {
                POut::P(g) => {
                    let want = match op {
                        "P + Q" => c.rc.add(rp, rq),
                        "P - Q" => c.rc.sub(rp, rq),
                        "-P" => c.rc.neg(rp),
                        "P + P" => c.rc.add(rp, rp),
                        _ => c.rc.mul(rp, k),
                    };
                    c.expect(ctx, &g, &want, what)
                }
                POut::B(g) => {
                    let want = c.rc.encode(rp, op != "encode(P)");
                    ctx.check(g == want, || format!("on {}: {} gives {g:02x?}, expected {want:02x?}", c.rc.desc(), what()))
                }
                POut::D(g) => {
                    let want = if op == "new_point" { Some(rp.clone()).filter(|p| c.rc.on(p)) } else { c.rc.decode(b) };
                    if want.is_none() {
                        ctx.hit("look-alike points refused");
                    }
                    match (g, want) {
                        (None, None) => ctx.check(true, what),
                        (Some(g), Some(w)) => c.expect(ctx, &g, &w, what),
                        (g, _) => {
                            let v = if g.is_some() { "accepted" } else { "refused" };
                            ctx.check(false, || format!("on {}: {} is {v}", c.rc.desc(), what()))
                        }
                    }
                }
                POut::T(t) => {
                    let want = match op {
                        "is_on_curve" => c.rc.is_id(rp) || c.rc.on(rp),
                        "is_zero" => c.rc.is_id(rp),
                        _ => rp == rq,
                    };
                    ctx.check(t == want, || format!("on {}: {} = {t}", c.rc.desc(), what()))
                }
            }
        },
    )
}

/// Several instances of one map, differing in the curve or in Z, used in turn.
fn map_seq<C: Cut>(
    ctx: &mut Ctx,
    name: &str,
    rcs: &[RC],
    zs: &dyn Fn(&RC) -> Vec<N>,
    make: &dyn Fn(&Crv<C>, FpElt) -> Box<dyn MapToCurve<E = C::E>>,
    want: &dyn Fn(&RC, &N, &N) -> RP,
) -> R {
    let mut ms = vec![];
    for rc in rcs {
        let c = Crv::<C>::new(ctx, rc)?;
        for z in zs(rc) {
            if let Ok(m) = guarded(|| make(&c, c.fe(&z))) {
                ms.push((m, z, Crv::<C>::new(ctx, rc)?));
            }
        }
    }
    if ms.is_empty() {
        return Ok(());
    }
    let p = &rcs[0].f.p;
    let u = gen::elt(&mut ctx.rng, p);
    let mut us = alike(&mut ctx.rng, &u, p, 5);
    us.push(N::zero());
    let mut seq = vec![];
    let by_input = ctx.rng.bool();
    for u in &us {
        // every map in turn asked about one input
        let mut order: Vec<usize> = (0..ms.len()).collect();
        shuffle(&mut ctx.rng, &mut order);
        for i in order {
            if by_input || ms.len() < 4 || ctx.rng.bool() {
                seq.push((i, u.clone()));
            }
        }
    }
    both_ways_as(ctx, seq, !by_input, |ctx, (i, u)| {
        let (m, z, c) = &ms[*i];
        let got = lib!(ctx, m.map(&c.fe(u)), "{name} (Z={z}) of u={u} on {}", c.rc.desc());
        c.expect(ctx, &got, &want(&c.rc, z, u), || format!("{name} (Z={z}) of u={u}, after other inputs,"))?;
        ctx.seen(&[name.as_bytes(), c.rc.desc().as_bytes(), &z.to_bytes_le(), &u.to_bytes_le()]);
        ctx.hit("look-alike maps");
        Ok(())
    })
}

/// Curves over one field for the maps.
fn map_curves(ctx: &mut Ctx, kind: Kind) -> Vec<RC> {
    let bits = 6 + ctx.rng.below(180);
    let p = gen::rand_prime(&mut ctx.rng, bits, sqrt_ok);
    let rc = random_curve(kind, &p, &mut ctx.rng);
    let mut v = vec![rc.clone()];
    v.extend(variants(ctx, &rc).into_iter().filter(|o| o.f.p == p && law_applies(o.kind, &o.f, &o.a, &o.b, &o.s)));
    shuffle(&mut ctx.rng, &mut v[1..]);
    v.truncate(4);
    v
}

/// Up to three admissible Z, look-alikes first.
fn pick_zs(rng: &mut Rng, f: &F, ok: &dyn Fn(&N) -> bool) -> Vec<N> {
    let mut v = vec![];
    let z = gen::elt(rng, &f.p);
    for c in alike(rng, &z, &f.p, 24) {
        if v.len() < 2 && ok(&c) && !c.is_zero() {
            v.push(c);
        }
    }
    for i in 1..60i64 {
        let c = f.small(if i & 1 == 1 { i } else { -i });
        if v.len() < 3 && !c.is_zero() && ok(&c) && !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn maps_seq(ctx: &mut Ctx, which: u64) -> R {
    type W0 = Box<dyn MapToCurve<E = weierstrass::Curve>>;
    type M0 = Box<dyn MapToCurve<E = montgomery::Curve>>;
    let seed = ctx.rng.u64();
    match which {
        0 => {
            let rcs = map_curves(ctx, Kind::W);
            let rcs: Vec<RC> = rcs.into_iter().filter(|o| !o.a.is_zero() && !o.b.is_zero()).collect();
            if rcs.is_empty() {
                return Ok(());
            }
            map_seq::<W>(ctx, "SSWU", &rcs,
                &|rc| pick_zs(&mut Rng::new(seed), &rc.f, &|z| maps::sswu_rfc(rc, z)),
                &|c, z| Box::new(weierstrass::SSWU::new(c.e.clone(), z)) as W0,
                &|rc, z, u| rc.sswu(z, u))
        }
        1 => {
            let rcs = map_curves(ctx, Kind::W);
            map_seq::<W>(ctx, "SvdW", &rcs,
                &|rc| pick_zs(&mut Rng::new(seed), &rc.f, &|z| maps::svdw_ok(rc, z)),
                &|c, z| Box::new(weierstrass::SVDW::new(c.e.clone(), z)) as W0,
                &|rc, z, u| rc.svdw(z, u))
        }
        2 => {
            let rcs = map_curves(ctx, Kind::M);
            map_seq::<M>(ctx, "Elligator2", &rcs,
                &|rc| pick_zs(&mut Rng::new(seed), &rc.f, &|z| maps::ell2_rfc(rc, z)),
                &|c, z| Box::new(montgomery::Ell2::new(c.e.clone(), z)) as M0,
                &|rc, z, u| rc.ell2(z, u))
        }
        _ => {
            // point maps: rational maps and isogenies, look-alike points in turn
            let mut seq = vec![];
            let range = match which {
                4 => 0..2usize,
                5 => 2..4,
                _ => 0..4,
            };
            for which in range {
                let names: Vec<&str> = match which {
                    0 | 1 => vec![maps::rats()[which].ed, maps::rats()[which].mt],
                    _ => vec![maps::ISO[which - 2]],
                };
                let mut both = vec![];
                for n in names {
                    let rc = crate::named::rc(n);
                    let mut v = alike_points(ctx, &rc);
                    shuffle(&mut ctx.rng, &mut v);
                    both.push(v);
                }
                for i in 0..2 {
                    let a = (both[0][i].clone(), both[0][i + 2].clone());
                    let b = both.get(1).map(|v| (v[i].clone(), v[i + 2].clone()));
                    seq.push((which, a, b));
                }
            }
            both_ways(ctx, seq, |ctx, (w, a, b)| {
                let rep = ctx.rng.below(4);
                match w {
                    0 | 1 => maps::one_sum(ctx, &maps::rats()[*w], Some((&a.0, &a.1)), b.as_ref().map(|b| (&b.0, &b.1)), rep)?,
                    _ => maps::iso_sum(ctx, maps::ISO[*w - 2], &a.0, &a.1, rep)?,
                }
                ctx.hit("look-alike point maps");
                Ok(())
            })
        }
    }
}

pub const MUST: [&str; 6] = [
    "look-alike sequences, both ways",
    "one operation in a row",
    "look-alike roots",
    "look-alike curves and points",
    "look-alike maps",
    "look-alike point maps",
];

/// What a sequence for property `id` must have met.
pub fn must(id: &str) -> &'static [&'static str] {
    match id {
        "C27" => &MUST,
        _ => &MUST[..1],
    }
}

/// The sequences which exercise what property `id` is about.
pub fn jobs(pl: &mut Plan, th: bool, id: &'static str) {
    let j = Judge(id);
    // the sequences are the subject of C27, and a part of the others
    let k = if id == "C27" { 1 } else { 2 };
    let n = |q, t| many(th, q, t) / k;
    pl.must_hit.extend(must(id));
    if ["C01", "C02", "C03", "C04", "C07"].iter().any(|p| j.on(p)) {
        pl.job("prime fields, look-alike operands in a row", n(240, 8000), move |ctx| fp_seq(ctx, j));
    }
    if ["C05", "C06", "C07"].iter().any(|p| j.on(p)) {
        pl.job("quadratic extensions, look-alike operands in a row", n(120, 4000), move |ctx| fp2_seq(ctx, j));
    }
    fn of<C: Cut>(pl: &mut Plan, n: &dyn Fn(u64, u64) -> u64, j: Judge) {
        let named = named_rcs(C::KIND);
        if j.on("C08") {
            pl.job(format!("{:?} scalars, look-alike operands in a row", C::KIND), n(120, 4000), scalar_seq::<C>);
        }
        if [law_id(C::KIND), "C12", "C13", "C14", "C15", "C16"].iter().any(|p| j.on(p)) {
            pl.job(format!("{:?} points, look-alike operands in a row", C::KIND), n(72, 2000), move |ctx| point_seq::<C>(ctx, &named, j));
        }
    }
    of::<W>(pl, &n, j);
    of::<M>(pl, &n, j);
    of::<E>(pl, &n, j);
    match id {
        "C27" => pl.job("maps, look-alike inputs in a row", n(80, 2400), |ctx| maps_seq(ctx, ctx.case % 4)),
        "C17" => pl.job("SSWU, look-alike inputs in a row", n(60, 1200), |ctx| maps_seq(ctx, 0)),
        "C18" => pl.job("SvdW, look-alike inputs in a row", n(60, 1200), |ctx| maps_seq(ctx, 1)),
        "C19" => pl.job("Elligator 2, look-alike inputs in a row", n(60, 1200), |ctx| maps_seq(ctx, 2)),
        "C20" => pl.job("rational maps, look-alike points in a row", n(40, 600), |ctx| maps_seq(ctx, 4)),
        "C21" => pl.job("isogenies, look-alike points in a row", n(40, 600), |ctx| maps_seq(ctx, 5)),
        _ => {}
    };
}
