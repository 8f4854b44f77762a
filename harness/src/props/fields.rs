//! C01-C07: prime field and quadratic extension.
use super::{many, sz};
use crate::cut::bi;
use crate::gen::{self, big, m8, Rng};
use crate::mon::{Ctx, Plan, R};
use crate::refm::{F, N};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};
use redox_ecc::field::{Field, Sgn0, Sqrt};
use redox_ecc::ops::{Deserialize, FromFactory, IntoFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use std::sync::Arc;

macro_rules! f4 {
    ($form:expr, $a:expr, $op:tt, $b:expr) => {
        match $form % 4 {
            0 => $a $op $b,
            1 => $a.clone() $op $b,
            2 => $a $op $b.clone(),
            _ => $a.clone() $op $b.clone(),
        }
    };
}

// ---------------------------------------------------------------- prime field

/// The element is the canonical residue `n`, by every observer of the library.
pub fn is_fp(ctx: &mut Ctx, f: &Fp, m: &F, got: &FpElt, n: &N, what: impl Fn() -> String) -> R {
    let lifted = lib!(ctx, f.elt(bi(n)), "elt({n}) mod {}", m.p);
    let txt = lib!(ctx, got.to_string(), "printing the result of {}", what());
    let be = lib!(ctx, got.to_bytes_be(), "to_bytes_be of the result of {}", what());
    ensure!(ctx, *got == lifted && lifted == *got, "mod {}: {} = {txt}, which does not equal the lift of {n}", m.p, what());
    ensure!(ctx, txt == n.to_string(), "mod {}: {} prints {txt} instead of {n}", m.p, what());
    ensure!(ctx, be == m.be(n), "mod {}: {} encodes to {be:?}, expected {:?}", m.p, what(), m.be(n));
    Ok(())
}

pub fn ring_case(ctx: &mut Ctx, f: &Fp, m: &F, a: &N, b: &N, form: usize) -> R {
    let (x, y) = (lib!(ctx, f.elt(bi(a)), "elt({a})"), lib!(ctx, f.elt(bi(b)), "elt({b})"));
    ring_ops(ctx, f, m, &x, &y, a, b, form)
}

#[allow(clippy::too_many_arguments)]
pub fn ring_ops(ctx: &mut Ctx, f: &Fp, m: &F, x: &FpElt, y: &FpElt, a: &N, b: &N, form: usize) -> R {
    let p = &m.p;
    let r = lib!(ctx, f4!(form, x, +, y), "{a}+{b} mod {p} (operand form {form})");
    is_fp(ctx, f, m, &r, &m.add(a, b), || format!("{a}+{b} (operand form {form})"))?;
    let r = lib!(ctx, f4!(form, x, -, y), "{a}-{b} mod {p} (operand form {form})");
    is_fp(ctx, f, m, &r, &m.sub(a, b), || format!("{a}-{b} (operand form {form})"))?;
    let r = lib!(ctx, f4!(form, x, *, y), "{a}*{b} mod {p} (operand form {form})");
    is_fp(ctx, f, m, &r, &m.mul(a, b), || format!("{a}*{b} (operand form {form})"))?;
    let r = lib!(ctx, if form & 1 == 0 { -x } else { -x.clone() }, "-{a} mod {p}");
    is_fp(ctx, f, m, &r, &m.neg(a), || format!("-({a})"))?;
    let r = lib!(ctx, if form & 1 == 0 { x ^ 2u32 } else { x.clone() ^ 2u32 }, "{a}^2 mod {p}");
    is_fp(ctx, f, m, &r, &m.sqr(a), || format!("({a})^2"))?;
    if m.add(a, b) >= *p || a < b {
        ctx.hit("wrapping operands");
    }
    ctx.seen(&[&m.be(a), &m.be(b), &p.to_bytes_le(), &[form as u8]]);
    Ok(())
}

fn tiny_pairs(primes: &[u64]) -> Arc<Vec<(u64, u64)>> {
    Arc::new(primes.iter().flat_map(|p| (0..*p).map(move |a| (*p, a))).collect())
}

/// A modulus for case `case`: special primes first, then random sizes.
pub fn big_prime(ctx: &mut Ctx, max_bits: usize, ok: impl Fn(u32) -> bool) -> N {
    if max_bits >= 200 && ctx.rng.one_in(if max_bits >= 500 { 30 } else { 60 }) {
        ctx.hit("huge fields");
        let v: Vec<N> = gen::huge_primes().into_iter().filter(|p| ok((p % 16u32).to_u32_digits()[0])).collect();
        let i = ctx.rng.below(v.len()).min(ctx.rng.below(v.len()));
        return v[i].clone();
    }
    let sp = gen::special_primes();
    let sp: Vec<N> = sp.into_iter().filter(|p| ok((p % 16u32).to_u32_digits()[0])).collect();
    if ctx.case % 2 == 0 {
        sp[(ctx.case / 2) as usize % sp.len()].clone()
    } else {
        let bits = 4 + ctx.rng.below(max_bits - 4);
        gen::rand_prime(&mut ctx.rng, bits, ok)
    }
}

/// Fields of thousands of bits, a few operations each.
pub fn giant_job(pl: &mut Plan, th: bool, n: u64, f: impl Fn(&mut Ctx, &N) -> R + Send + Sync + 'static) {
    pl.must_hit.push("giant fields");
    pl.job("giant primes", if th { 4 * n } else { n }, move |ctx| {
        let p = gen::giant_prime(ctx.case as usize);
        ctx.hit("giant fields");
        f(ctx, &p)
    });
}

pub fn c01(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C01",
        "a case is one operand pair (every pair modulo tiny primes; structured and random pairs modulo special, named and random primes; chains of operations feeding results back); distinct = distinct (modulus, a, b, operand form)",
    );
    pl.must_hit = vec!["wrapping operands", "chain steps"];
    let t = tiny_pairs(&gen::small_primes(sz(th, 47, 151)));
    let n = t.len() as u64;
    pl.job("tiny primes, all pairs", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let m = F::new(&big(p));
        let f = lib!(ctx, Fp::new(big(p)), "Fp::new({p})");
        for b in 0..p {
            for k in 0..4 {
                ring_case(ctx, &f, &m, &big(a), &big(b), k)?;
            }
        }
        Ok(())
    });
    pl.job("large primes", many(th, 1500, 60000), |ctx| {
        let p = big_prime(ctx, if ctx.case % 32 == 1 { 2100 } else { 640 }, |_| true);
        let m = F::new(&p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        let g = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        for k in 0..24 {
            let a = gen::elt(&mut ctx.rng, &p);
            let b = match ctx.rng.below(6) {
                0 => m.neg(&a),
                1 => a.clone(),
                2 => m.sub(&m.neg(&a), &N::one()),
                3 | 4 => gen::partner(&mut ctx.rng, &p, &a),
                _ => gen::elt(&mut ctx.rng, &p),
            };
            ctx.sample(|| format!("p={p} a={a} b={b}"));
            if k % 5 == 4 {
                // operands from independently created fields
                let x = lib!(ctx, f.elt(bi(&a)), "elt");
                let y = lib!(ctx, g.elt(bi(&b)), "elt");
                ring_ops(ctx, &f, &m, &x, &y, &a, &b, k)?;
            } else {
                ring_case(ctx, &f, &m, &a, &b, k)?;
            }
        }
        // chain: results are operands of later operations
        let mut xs = vec![];
        let mut rs = vec![];
        for _ in 0..3 {
            let a = gen::elt(&mut ctx.rng, &p);
            xs.push(lib!(ctx, f.elt(bi(&a)), "elt"));
            rs.push(a);
        }
        for step in 0..40 {
            let (i, j, o) = (ctx.rng.below(3), ctx.rng.below(3), ctx.rng.below(3));
            let k = ctx.rng.below(4);
            let (what, v, w) = match ctx.rng.below(7) {
                0 | 1 => ("+", lib!(ctx, f4!(k, &xs[i], +, &xs[j]), "chain +"), m.add(&rs[i], &rs[j])),
                2 | 3 => ("-", lib!(ctx, f4!(k, &xs[i], -, &xs[j]), "chain -"), m.sub(&rs[i], &rs[j])),
                4 => ("neg", lib!(ctx, -&xs[i], "chain neg"), m.neg(&rs[i])),
                5 => ("sqr", lib!(ctx, &xs[i] ^ 2u32, "chain sqr"), m.sqr(&rs[i])),
                _ => ("*", lib!(ctx, f4!(k, &xs[i], *, &xs[j]), "chain *"), m.mul(&rs[i], &rs[j])),
            };
            let (ri, rj) = (rs[i].clone(), rs[j].clone());
            is_fp(ctx, &f, &m, &v, &w, || format!("step {step}: {ri} {what} {rj}"))?;
            ctx.hit("chain steps");
            xs[o] = v;
            rs[o] = w;
        }
        Ok(())
    });
    giant_job(&mut pl, th, 8, |ctx, p| {
        let m = F::new(p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        for k in 0..3 {
            let a = gen::elt(&mut ctx.rng, p);
            let b = gen::elt(&mut ctx.rng, p);
            ring_case(ctx, &f, &m, &a, &b, k)?;
        }
        Ok(())
    });
    pl
}

pub fn group_case(ctx: &mut Ctx, f: &Fp, m: &F, a: &N, b: &N, k: usize) -> R {
    let p = &m.p;
    let x = lib!(ctx, f.elt(bi(a)), "elt({a})");
    let y = lib!(ctx, f.elt(bi(b)), "elt({b})");
    let inv = m.inv(b);
    let iy = lib!(ctx, 1u32 / &y, "1/{b} mod {p}");
    is_fp(ctx, f, m, &iy, &inv, || format!("1/({b})"))?;
    let r = lib!(ctx, if k & 1 == 0 { &y ^ -1i32 } else { y.clone() ^ -1i32 }, "{b}^-1 mod {p}");
    is_fp(ctx, f, m, &r, &inv, || format!("({b})^-1"))?;
    let r = lib!(ctx, f4!(k, &x, /, &y), "{a}/{b} mod {p}");
    is_fp(ctx, f, m, &r, &m.mul(a, &inv), || format!("{a}/({b}) (operand form {k})"))?;
    if b.is_zero() {
        ctx.hit("inverse of zero");
    } else {
        let one = lib!(ctx, &y * &iy, "b*(1/b)");
        is_fp(ctx, f, m, &one, &N::one(), || format!("{b} * (1/{b})"))?;
    }
    ctx.seen(&[b"inv", &m.be(a), &m.be(b), &p.to_bytes_le(), &[k as u8]]);
    Ok(())
}

pub fn pow_case(ctx: &mut Ctx, f: &Fp, m: &F, a: &N, e: &BigInt) -> R {
    let p = &m.p;
    let x = lib!(ctx, f.elt(bi(a)), "elt({a})");
    let want = m.pow(a, e);
    let r = lib!(ctx, &x ^ e, "{a}^({e}) mod {p}");
    is_fp(ctx, f, m, &r, &want, || format!("({a})^({e}) [signed]"))?;
    if let Some(u) = e.to_biguint() {
        let r = lib!(ctx, &x ^ &u, "{a}^{u} mod {p} [unsigned]");
        is_fp(ctx, f, m, &r, &want, || format!("({a})^({e}) [unsigned]"))?;
    } else {
        ctx.hit("negative exponent");
    }
    if a.is_zero() && e.magnitude() % (p - 1u32) == N::zero() && !e.is_zero() {
        ctx.hit("zero to a nonzero multiple of p-1");
    }
    ctx.seen(&[b"pow", &m.be(a), &e.to_signed_bytes_be(), &p.to_bytes_le()]);
    Ok(())
}

pub fn exponent(rng: &mut Rng, p: &N) -> BigInt {
    let m1 = p - 1u32;
    if p.bits() <= 140 && rng.one_in(60) {
        // far longer than any field
        let bits = *rng.pick(&[4000, 9000, 17000, 33000]) + rng.below(200);
        let v = match rng.below(3) {
            0 => BigUint::one() << bits,
            1 => &m1 << bits,
            _ => gen::pattern(rng, bits),
        };
        return BigInt::from_biguint(if rng.one_in(3) { Sign::Minus } else { Sign::Plus }, v);
    }
    let v = match rng.below(9) {
        0 => BigUint::from(rng.below(70)),
        1 => &m1 * BigUint::from(rng.below(5)),
        2 => &m1 * BigUint::from(rng.below(4)) + BigUint::from(rng.below(4)),
        3 => p * BigUint::from(rng.below(4) + 1) - BigUint::from(rng.below(4)),
        4 => (&m1 >> 1usize) + BigUint::from(rng.below(3)),
        5 => gen::pattern(rng, 64),
        6 => gen::pattern(rng, 3 * p.bits() as usize),
        _ => gen::pattern(rng, p.bits() as usize),
    };
    BigInt::from_biguint(if rng.one_in(3) { Sign::Minus } else { Sign::Plus }, v)
}

pub fn c02(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C02",
        "a case is one division/inversion or one power (all bases and all exponents within +-2p modulo tiny primes; structured ones modulo large primes); distinct = distinct (modulus, operands)",
    );
    pl.must_hit = vec!["inverse of zero", "negative exponent", "zero to a nonzero multiple of p-1"];
    let t = tiny_pairs(&gen::small_primes(sz(th, 43, 113)));
    let n = t.len() as u64;
    pl.job("tiny primes, all bases and exponents", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let m = F::new(&big(p));
        let f = lib!(ctx, Fp::new(big(p)), "Fp::new({p})");
        for b in 0..p {
            group_case(ctx, &f, &m, &big(a), &big(b), (a + b) as usize)?;
        }
        for e in -(2 * p as i64)..=2 * p as i64 {
            pow_case(ctx, &f, &m, &big(a), &BigInt::from(e))?;
        }
        Ok(())
    });
    pl.job("large primes", many(th, 800, 30000), |ctx| {
        let p = big_prime(ctx, if ctx.case % 64 == 1 { 1100 } else { 540 }, |_| true);
        let m = F::new(&p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        for k in 0..6 {
            let a = gen::elt(&mut ctx.rng, &p);
            let b = match k {
                5 => N::zero(),
                _ if k % 2 == 0 => gen::partner(&mut ctx.rng, &p, &a),
                _ => gen::elt(&mut ctx.rng, &p),
            };
            ctx.sample(|| format!("p={p} a={a} b={b}"));
            group_case(ctx, &f, &m, &a, &b, k)?;
        }
        for k in 0..8 {
            let a = if k == 0 { N::zero() } else { gen::elt(&mut ctx.rng, &p) };
            let e = exponent(&mut ctx.rng, &p);
            pow_case(ctx, &f, &m, &a, &e)?;
        }
        Ok(())
    });
    giant_job(&mut pl, th, 8, |ctx, p| {
        let m = F::new(p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        for _ in 0..3 {
            let a = gen::elt(&mut ctx.rng, p);
            let e = BigInt::from(ctx.rng.below(300));
            pow_case(ctx, &f, &m, &a, &e)?;
            let b = gen::elt(&mut ctx.rng, p);
            if p.bits() < 3000 {
                group_case(ctx, &f, &m, &a, &b, 1)?;
            }
        }
        Ok(())
    });
    pl
}

pub fn sqrt_case(ctx: &mut Ctx, f: &Fp, m: &F, a: &N, order: usize) -> R {
    let p = &m.p;
    let x = lib!(ctx, f.elt(bi(a)), "elt({a})");
    let sq = m.is_square(a);
    let test = |ctx: &mut Ctx| -> R {
        let got = lib!(ctx, x.is_square(), "is_square({a}) mod {p}");
        ensure!(ctx, got == sq, "mod {p}: is_square({a}) = {got}, but it {}", if sq { "is a square" } else { "is not a square" });
        Ok(())
    };
    let root = |ctx: &mut Ctx| -> R {
        let r = lib!(ctx, x.sqrt(), "sqrt({a}) mod {p}");
        if sq {
            ctx.hit(if m8(p) % 4 == 3 { "root, p=3 mod 4" } else { "root, p=5 mod 8" });
            let v = BigUint::from_bytes_be(&lib!(ctx, r.to_bytes_be(), "encoding sqrt({a})"));
            let c = lib!(ctx, &r * &r == x, "checking the root");
            ensure!(ctx, c && v < *p && m.sqr(&v) == *a, "mod {p}: sqrt({a}) = {v}, whose square is {}", m.sqr(&v));
        } else {
            ctx.hit("root of a non-square returned");
        }
        Ok(())
    };
    match order % 3 {
        0 => {
            test(ctx)?;
            root(ctx)?;
        }
        1 => {
            root(ctx)?;
            test(ctx)?;
        }
        _ => {
            root(ctx)?;
            root(ctx)?;
        }
    }
    ctx.seen(&[&m.be(a), &p.to_bytes_le(), &[order as u8 % 3]]);
    Ok(())
}

pub fn sqrt_ok(r: u32) -> bool {
    r % 4 == 3 || r % 8 == 5
}

pub fn c03(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C03",
        "a case is one element queried for squareness and root (all elements modulo tiny primes; squares, non-squares and structured elements modulo large primes; interleaved histories over several fields); distinct = distinct (modulus, element, query order)",
    );
    pl.must_hit = vec!["root, p=3 mod 4", "root, p=5 mod 8", "root of a non-square returned", "fields interleaved"];
    let primes: Vec<u64> = gen::small_primes(sz(th, 400, 3000)).into_iter().filter(|p| sqrt_ok((*p % 16) as u32)).collect();
    let n = primes.len() as u64;
    pl.job("tiny primes, all elements", n * 3, move |ctx| {
        let p = primes[(ctx.case / 3) as usize];
        let m = F::new(&big(p));
        let f = lib!(ctx, Fp::new(big(p)), "Fp::new({p})");
        let mut v: Vec<u64> = (0..p).collect();
        if ctx.case % 3 == 1 {
            v.reverse();
        } else if ctx.case % 3 == 2 {
            for i in (1..v.len()).rev() {
                v.swap(i, ctx.rng.below(i + 1));
            }
        }
        for (i, a) in v.into_iter().enumerate() {
            sqrt_case(ctx, &f, &m, &big(a), i + ctx.case as usize)?;
        }
        Ok(())
    });
    pl.job("large primes", many(th, 500, 20000), |ctx| {
        let p = big_prime(ctx, 600, sqrt_ok);
        let m = F::new(&p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        for k in 0..8 {
            let mut a = gen::elt(&mut ctx.rng, &p);
            if k % 3 == 0 {
                a = m.sqr(&a);
            } else if k == 1 {
                // element of 2-power order and friends
                a = m.small(*ctx.rng.pick(&[0, 1, -1, 2, -2, 4, -4, 1]));
            }
            ctx.sample(|| format!("p={p} a={a}"));
            sqrt_case(ctx, &f, &m, &a, k + ctx.case as usize)?;
        }
        Ok(())
    });
    pl.job("interleaved fields", many(th, 300, 6000), |ctx| {
        // several live fields (twins included), queried in random order, some dropped and rebuilt
        let mut fs: Vec<(Fp, F)> = vec![];
        for i in 0..4 {
            let p = if i == 3 {
                fs[0].1.p.clone()
            } else {
                let bits = 5 + ctx.rng.below(90);
                gen::rand_prime(&mut ctx.rng, bits, sqrt_ok)
            };
            fs.push((lib!(ctx, Fp::new(p.clone()), "Fp::new"), F::new(&p)));
        }
        for step in 0..40 {
            let i = ctx.rng.below(4);
            if ctx.rng.one_in(12) {
                let p = fs[i].1.p.clone();
                fs[i].0 = lib!(ctx, Fp::new(p), "Fp::new");
            }
            let (f, m) = fs[i].clone();
            let a = gen::elt(&mut ctx.rng, &m.p);
            let a = if ctx.rng.bool() { m.sqr(&a) } else { a };
            sqrt_case(ctx, &f, &m, &a, step)?;
            ctx.hit("fields interleaved");
        }
        Ok(())
    });
    giant_job(&mut pl, th, 6, |ctx, p| {
        if p.bits() < 5000 {
            let m = F::new(p);
            let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
            for k in 0..2 {
                let a = gen::elt(&mut ctx.rng, p);
                sqrt_case(ctx, &f, &m, &a, k)?;
            }
        }
        Ok(())
    });
    pl
}

// ---------------------------------------------------------------- conversions

/// Renders an integer as a numeral in a radix understood by the library.
pub fn numeral(rng: &mut Rng, n: &BigInt) -> String {
    let (neg, mag) = (n.sign() == Sign::Minus, n.magnitude());
    let zeros = "0".repeat(if rng.one_in(3) { rng.below(9) } else { 0 });
    let body = match rng.below(5) {
        0 => format!("0x{zeros}{}", mag.to_str_radix(16)),
        1 => format!("0x{zeros}{}", mag.to_str_radix(16).to_uppercase()),
        2 => format!("0o{zeros}{}", mag.to_str_radix(8)),
        3 => format!("0b{zeros}{}", mag.to_str_radix(2)),
        _ => format!("{zeros}{}", mag.to_str_radix(10)),
    };
    if neg {
        format!("-{body}")
    } else {
        body
    }
}

pub fn conv_case(ctx: &mut Ctx, f: &Fp, m: &F, n: &BigInt) -> R {
    let p = &m.p;
    let want = m.lift(n);
    let e = lib!(ctx, f.elt(n.clone()), "elt({n}) mod {p}");
    // ground truth through text first: is_fp relies on elt of a reduced value
    let txt = lib!(ctx, e.to_string(), "printing elt({n})");
    ensure!(ctx, txt == want.to_string(), "mod {p}: elt({n}) prints {txt}, expected {want}");
    is_fp(ctx, f, m, &e, &want, || format!("elt({n})"))?;
    let be = lib!(ctx, e.to_bytes_be(), "to_bytes_be");
    let le = lib!(ctx, e.to_bytes_le(), "to_bytes_le");
    let size = lib!(ctx, f.size_bytes(), "size_bytes");
    ensure!(ctx, size == m.size() && be.len() == size && le.len() == size, "mod {p}: element {want} encodes to {} / {} bytes, size_bytes {size}, expected {}", be.len(), le.len(), m.size());
    let mut rev = le.clone();
    rev.reverse();
    ensure!(ctx, rev == be, "mod {p}: byte orders of {want} are not reversals: {be:?} {le:?}");
    let d = lib!(ctx, f.from_bytes_be(&be), "from_bytes_be");
    ensure!(ctx, d.is_ok_and(|d| d == e), "mod {p}: decoding the big-endian encoding of {want} does not restore it");
    let d = lib!(ctx, f.from_bytes_le(&le), "from_bytes_le");
    ensure!(ctx, d.is_ok_and(|d| d == e), "mod {p}: decoding the little-endian encoding of {want} does not restore it");
    for _ in 0..2 {
        let s = numeral(&mut ctx.rng, n);
        let v = lib!(ctx, FromFactory::from(f, s.as_str()), "parsing {s:?} mod {p}");
        is_fp(ctx, f, m, &v, &want, || format!("parsing {s:?}"))?;
        let v: FpElt = lib!(ctx, s.as_str().lift(f), "lifting {s:?} mod {p}");
        ensure!(ctx, v == e, "mod {p}: lift of {s:?} differs from parsing it");
        if s.contains('x') {
            ctx.hit("hexadecimal");
        }
        if s.starts_with('-') {
            ctx.hit("negative numerals");
        }
    }
    let back = lib!(ctx, FromFactory::from(f, txt.as_str()), "parsing {txt:?}");
    ensure!(ctx, back == e, "mod {p}: printed form {txt:?} does not parse back");
    // raw byte strings of any length
    let len = match if ctx.rng.one_in(100) { 9 } else { ctx.rng.below(4) } {
        9 => *ctx.rng.pick(&[255usize, 256, 257, 1024, 4097]) + ctx.rng.below(3),
        0 => ctx.rng.below(4),
        1 => size,
        2 => size + 1 + ctx.rng.below(3),
        _ => ctx.rng.below(3 * size + 3),
    };
    let mut bytes = ctx.rng.bytes(len);
    if ctx.rng.one_in(4) {
        bytes.iter_mut().for_each(|b| *b = 0xff);
    }
    if len > 0 && ctx.rng.one_in(4) {
        bytes[0] = 0;
        bytes[len - 1] = 0;
    }
    let v = lib!(ctx, f.from_bytes_be(&bytes), "from_bytes_be({bytes:?}) mod {p}");
    let w = BigUint::from_bytes_be(&bytes) % p;
    match v {
        Ok(v) => is_fp(ctx, f, m, &v, &w, || format!("from_bytes_be({bytes:?})"))?,
        Err(e) => ensure!(ctx, false, "mod {p}: from_bytes_be({bytes:?}) failed: {e}"),
    }
    let v = lib!(ctx, f.from_bytes_le(&bytes), "from_bytes_le({bytes:?}) mod {p}");
    let w = BigUint::from_bytes_le(&bytes) % p;
    match v {
        Ok(v) => is_fp(ctx, f, m, &v, &w, || format!("from_bytes_le({bytes:?})"))?,
        Err(e) => ensure!(ctx, false, "mod {p}: from_bytes_le({bytes:?}) failed: {e}"),
    }
    ctx.seen(&[&n.to_signed_bytes_be(), &p.to_bytes_le()]);
    if n.sign() == Sign::Minus {
        ctx.hit("negative integers");
    }
    if want.bits() + 8 <= p.bits() {
        ctx.hit("encodings with leading zero bytes");
    }
    Ok(())
}

macro_rules! ints {
    ($ctx:expr, $f:expr, $m:expr, $($t:ty),*) => {
        $(for v in [<$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1, 0 as $t, 1 as $t, 2 as $t, (0 as $t).wrapping_sub(1), $ctx.rng.u64() as $t] {
            let e: FpElt = lib!($ctx, FromFactory::from($f, v), "lifting {v}{} mod {}", stringify!($t), $m.p);
            let w = F::lift($m, &BigInt::from(v));
            is_fp($ctx, $f, $m, &e, &w, || format!("lift of {v}{}", stringify!($t)))?;
            let e2: FpElt = lib!($ctx, v.lift($f), "lift {v}");
            ensure!($ctx, e2 == e, "lift and from differ for {v}");
            $ctx.hit("primitive integers");
        })*
    };
}

pub fn c04(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C04",
        "a case is one integer, numeral or byte string converted into a field and back (all residues and neighbours modulo tiny primes; structured values of up to three field sizes modulo large primes); distinct = distinct (modulus, integer)",
    );
    pl.must_hit = vec!["hexadecimal", "negative numerals", "primitive integers", "negative integers", "encodings with leading zero bytes", "wrong lengths refused", "extension coordinates"];
    let primes = gen::small_primes(sz(th, 300, 1100));
    let n = primes.len() as u64;
    pl.job("tiny primes", n, move |ctx| {
        let p = primes[ctx.case as usize];
        let m = F::new(&big(p));
        let f = lib!(ctx, Fp::new(big(p)), "Fp::new({p})");
        for k in -(p as i64) - 2..=2 * p as i64 + 2 {
            conv_case(ctx, &f, &m, &BigInt::from(k))?;
        }
        Ok(())
    });
    pl.job("large primes", many(th, 800, 30000), |ctx| {
        let p = big_prime(ctx, if ctx.case % 32 == 1 { 2100 } else { 600 }, |_| true);
        let m = F::new(&p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        let md = lib!(ctx, f.get_modulus(), "get_modulus");
        ensure!(ctx, md == bi(&p), "get_modulus of GF({p}) is {md}");
        let (z, o) = (lib!(ctx, f.zero(), "zero"), lib!(ctx, f.one(), "one"));
        is_fp(ctx, &f, &m, &z, &N::zero(), || "zero()".into())?;
        is_fp(ctx, &f, &m, &o, &N::one(), || "one()".into())?;
        for k in 0..10 {
            let v = match k {
                0 => bi(&gen::elt(&mut ctx.rng, &p)),
                1 => BigInt::from(gen::pattern(&mut ctx.rng, 8)),
                _ => gen::int(&mut ctx.rng, &p),
            };
            ctx.sample(|| format!("p={p} n={v}"));
            conv_case(ctx, &f, &m, &v)?;
        }
        ints!(ctx, &f, &m, u8, u16, u32, u64, i8, i16, i32, i64);
        Ok(())
    });
    pl.job("quadratic extension", many(th, 800, 20000), |ctx| {
        let p = if ctx.case < 40 {
            let v = [3u64, 7, 11, 19, 23, 31, 43, 47, 127, 131, 251, 263];
            big(v[ctx.case as usize % v.len()])
        } else {
            big_prime(ctx, 600, |r| r % 4 == 3)
        };
        let m = F::new(&p);
        let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new({p})");
        let size = lib!(ctx, f.size_bytes(), "size_bytes");
        ensure!(ctx, size == 2 * m.size(), "size_bytes of GF({p})^2 is {size}");
        for _ in 0..6 {
            let (n0, n1) = (gen::int(&mut ctx.rng, &p), gen::int(&mut ctx.rng, &p));
            let (a, b) = (F::lift(&m, &n0), F::lift(&m, &n1));
            let s = format!("{},{}", numeral(&mut ctx.rng, &n0), numeral(&mut ctx.rng, &n1));
            let x = lib!(ctx, FromFactory::from(&f, s.as_str()), "parsing {s:?} in GF({p})^2");
            let mut be = m.be(&a);
            be.extend(m.be(&b));
            let mut le: Vec<u8> = m.be(&a).into_iter().rev().collect();
            le.extend(m.be(&b).into_iter().rev());
            let gbe = lib!(ctx, x.to_bytes_be(), "to_bytes_be");
            let gle = lib!(ctx, x.to_bytes_le(), "to_bytes_le");
            ensure!(ctx, gbe == be, "GF({p})^2: {a}+{b}i (from {s:?}) has big-endian form {gbe:?}");
            ensure!(ctx, gle == le, "GF({p})^2: {a}+{b}i (from {s:?}) has little-endian form {gle:?}");
            let d = lib!(ctx, f.from_bytes_be(&be), "from_bytes_be");
            ensure!(ctx, d.is_ok_and(|d| d == x), "GF({p})^2: big-endian round trip of {a}+{b}i");
            let d = lib!(ctx, f.from_bytes_le(&le), "from_bytes_le");
            ensure!(ctx, d.is_ok_and(|d| d == x), "GF({p})^2: little-endian round trip of {a}+{b}i");
            let e = lib!(ctx, f.elt(n0.clone()), "elt");
            let mut be0 = m.be(&a);
            be0.extend(m.be(&N::zero()));
            let g0 = lib!(ctx, e.to_bytes_be(), "to_bytes_be");
            ensure!(ctx, g0 == be0, "GF({p})^2: elt({n0}) has big-endian form {g0:?}");
            let len = loop {
                let l = match ctx.rng.below(4) {
                    0 => size / 2,
                    1 => size + 1,
                    2 => size - 1,
                    _ => ctx.rng.below(2 * size + 4),
                };
                if l != size {
                    break l;
                }
            };
            let junk = ctx.rng.bytes(len);
            let d = lib!(ctx, f.from_bytes_be(&junk).is_err(), "from_bytes_be of {len} bytes in GF({p})^2");
            ensure!(ctx, d, "GF({p})^2 decodes {len} bytes (big-endian) although elements have {size}");
            let d = lib!(ctx, f.from_bytes_le(&junk).is_err(), "from_bytes_le of {len} bytes in GF({p})^2");
            ensure!(ctx, d, "GF({p})^2 decodes {len} bytes (little-endian) although elements have {size}");
            ctx.hit("wrong lengths refused");
            ctx.hit("extension coordinates");
            ctx.seen(&[b"2", &be, &p.to_bytes_le()]);
        }
        macro_rules! small2 { ($($t:ty),*) => { $(
            for v in [<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, ctx.rng.u64() as $t] {
                let e: Fp2Elt = lib!(ctx, FromFactory::from(&f, v), "lifting {v}");
                let mut w = m.be(&F::lift(&m, &BigInt::from(v)));
                w.extend(m.be(&N::zero()));
                let g = lib!(ctx, e.to_bytes_be(), "to_bytes_be");
                ensure!(ctx, g == w, "GF({p})^2: lift of {v}{} has big-endian form {g:?}", stringify!($t));
            } )* } }
        small2!(u8, u16, u32, u64, i8, i16, i32, i64);
        Ok(())
    });
    giant_job(&mut pl, th, 8, |ctx, p| {
        let m = F::new(p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        for k in 0..3 {
            let v = if k == 0 { BigInt::from(ctx.rng.u64()) } else { gen::int(&mut ctx.rng, p) };
            conv_case(ctx, &f, &m, &v)?;
        }
        Ok(())
    });
    pl
}

// ---------------------------------------------------------------- GF(p^2)

pub type N2 = (N, N);

pub struct G(pub F);

impl G {
    pub fn add(&self, u: &N2, v: &N2) -> N2 {
        (self.0.add(&u.0, &v.0), self.0.add(&u.1, &v.1))
    }
    pub fn sub(&self, u: &N2, v: &N2) -> N2 {
        (self.0.sub(&u.0, &v.0), self.0.sub(&u.1, &v.1))
    }
    pub fn neg(&self, u: &N2) -> N2 {
        (self.0.neg(&u.0), self.0.neg(&u.1))
    }
    pub fn mul(&self, u: &N2, v: &N2) -> N2 {
        let f = &self.0;
        // Karatsuba, unlike the library
        let t0 = f.mul(&u.0, &v.0);
        let t1 = f.mul(&u.1, &v.1);
        let t2 = f.mul(&f.add(&u.0, &u.1), &f.add(&v.0, &v.1));
        (f.sub(&t0, &t1), f.sub(&f.sub(&t2, &t0), &t1))
    }
    pub fn norm(&self, u: &N2) -> N {
        self.0.add(&self.0.sqr(&u.0), &self.0.sqr(&u.1))
    }
    pub fn inv(&self, u: &N2) -> N2 {
        let d = self.0.inv(&self.norm(u));
        (self.0.mul(&u.0, &d), self.0.neg(&self.0.mul(&u.1, &d)))
    }
    pub fn pow(&self, u: &N2, e: &BigInt) -> N2 {
        let mut r = (N::one(), N::zero());
        let m = e.magnitude();
        for i in (0..m.bits()).rev() {
            r = self.mul(&r, &r);
            if m.bit(i) {
                r = self.mul(&r, u);
            }
        }
        if e.sign() == Sign::Minus {
            self.inv(&r)
        } else {
            r
        }
    }
    /// every element of GF(p) has a root in GF(p^2), so a square is one whose norm is a square
    pub fn is_square(&self, u: &N2) -> bool {
        self.0.is_square(&self.norm(u))
    }
    pub fn be(&self, u: &N2) -> Vec<u8> {
        let mut v = self.0.be(&u.0);
        v.extend(self.0.be(&u.1));
        v
    }
}

pub fn s2(u: &N2) -> String {
    format!("({}+{}i)", u.0, u.1)
}

pub fn mk2(ctx: &Ctx, f: &Fp2, u: &N2) -> R<Fp2Elt> {
    let s = format!("{},{}", u.0, u.1);
    Ok(lib!(ctx, FromFactory::from(f, s.as_str()), "Fp2 from {s:?}"))
}

pub fn is_fp2(ctx: &mut Ctx, f: &Fp2, g: &G, got: &Fp2Elt, n: &N2, what: impl Fn() -> String) -> R {
    let lifted = mk2(ctx, f, n)?;
    let be = lib!(ctx, got.to_bytes_be(), "to_bytes_be of the result of {}", what());
    ensure!(ctx, be == g.be(n), "GF({})^2: {} encodes to {be:?}, expected {}", g.0.p, what(), s2(n));
    ensure!(ctx, *got == lifted && lifted == *got, "GF({})^2: {} does not equal {}", g.0.p, what(), s2(n));
    Ok(())
}

pub fn fp2_case(ctx: &mut Ctx, f: &Fp2, g: &G, u: &N2, v: &N2, k: usize) -> R {
    let (x, y) = (mk2(ctx, f, u)?, mk2(ctx, f, v)?);
    let (su, sv) = (s2(u), s2(v));
    let p = &g.0.p;
    let r = lib!(ctx, f4!(k, &x, +, &y), "{su}+{sv} mod {p}");
    is_fp2(ctx, f, g, &r, &g.add(u, v), || format!("{su}+{sv} (form {k})"))?;
    let r = lib!(ctx, f4!(k, &x, -, &y), "{su}-{sv} mod {p}");
    is_fp2(ctx, f, g, &r, &g.sub(u, v), || format!("{su}-{sv} (form {k})"))?;
    let r = lib!(ctx, f4!(k, &x, *, &y), "{su}*{sv} mod {p}");
    is_fp2(ctx, f, g, &r, &g.mul(u, v), || format!("{su}*{sv} (form {k})"))?;
    let r = lib!(ctx, f4!(k, &x, /, &y), "{su}/{sv} mod {p}");
    is_fp2(ctx, f, g, &r, &g.mul(u, &g.inv(v)), || format!("{su}/{sv} (form {k})"))?;
    ctx.seen(&[&g.be(u), &g.be(v), &p.to_bytes_le(), &[k as u8]]);
    Ok(())
}

pub fn fp2_unary(ctx: &mut Ctx, f: &Fp2, g: &G, u: &N2, k: usize) -> R {
    let x = mk2(ctx, f, u)?;
    let su = s2(u);
    let p = &g.0.p;
    let r = lib!(ctx, if k & 1 == 0 { -&x } else { -x.clone() }, "-{su} mod {p}");
    is_fp2(ctx, f, g, &r, &g.neg(u), || format!("-{su}"))?;
    let r = lib!(ctx, if k & 1 == 0 { &x ^ 2u32 } else { x.clone() ^ 2u32 }, "{su}^2 mod {p}");
    is_fp2(ctx, f, g, &r, &g.mul(u, u), || format!("{su}^2"))?;
    let i = g.inv(u);
    let r = lib!(ctx, 1u32 / &x, "1/{su} mod {p}");
    is_fp2(ctx, f, g, &r, &i, || format!("1/{su}"))?;
    let r = lib!(ctx, if k & 1 == 0 { &x ^ -1i32 } else { x.clone() ^ -1i32 }, "{su}^-1 mod {p}");
    is_fp2(ctx, f, g, &r, &i, || format!("{su}^-1"))?;
    if u.0.is_zero() && u.1.is_zero() {
        ctx.hit("inverse of zero");
    } else if u.1.is_zero() {
        ctx.hit("inverse of a base-field element");
    } else {
        ctx.hit("inverse of a proper extension element");
    }
    ctx.seen(&[b"un", &g.be(u), &p.to_bytes_le(), &[k as u8 & 1]]);
    Ok(())
}

pub fn fp2_pow(ctx: &mut Ctx, f: &Fp2, g: &G, u: &N2, e: &BigInt) -> R {
    let x = mk2(ctx, f, u)?;
    let su = s2(u);
    let p = &g.0.p;
    let want = g.pow(u, e);
    let r = lib!(ctx, &x ^ e, "{su}^({e}) mod {p}");
    is_fp2(ctx, f, g, &r, &want, || format!("{su}^({e}) [signed]"))?;
    if let Some(n) = e.to_biguint() {
        let r = lib!(ctx, &x ^ &n, "{su}^{n} mod {p}");
        is_fp2(ctx, f, g, &r, &want, || format!("{su}^({e}) [unsigned]"))?;
        if n.bits() >= 32 {
            ctx.hit("exponent of 32 bits or more");
        }
    } else {
        ctx.hit("negative exponent");
    }
    ctx.seen(&[b"pow", &g.be(u), &e.to_signed_bytes_be(), &p.to_bytes_le()]);
    Ok(())
}

pub fn elt2(rng: &mut Rng, p: &N) -> N2 {
    match rng.below(8) {
        0 => (gen::elt(rng, p), N::zero()),
        1 => (N::zero(), gen::elt(rng, p)),
        2 => {
            let a = gen::elt(rng, p);
            (a.clone(), a)
        }
        3 => {
            let a = gen::elt(rng, p);
            (a.clone(), (p - &a) % p)
        }
        _ => (gen::elt(rng, p), gen::elt(rng, p)),
    }
}

/// An operand which with `u` gives a result with structured coordinates.
pub fn partner2(rng: &mut Rng, g: &G, u: &N2) -> N2 {
    let p = &g.0.p;
    let t = elt2(rng, p);
    match rng.below(4) {
        0 => (gen::partner(rng, p, &u.0), gen::partner(rng, p, &u.1)),
        1 => (gen::partner(rng, p, &u.1), gen::partner(rng, p, &u.0)),
        2 => g.mul(&g.inv(u), &t),
        _ => g.mul(&g.inv(&t), u),
    }
}

pub fn all2(p: u64) -> Vec<N2> {
    (0..p).flat_map(|a| (0..p).map(move |b| (big(a), big(b)))).collect()
}

pub fn c05(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C05",
        "a case is one operation on extension elements (every pair for tiny p; structured pairs and exponents for special and random p = 3 mod 4); distinct = distinct (p, operands)",
    );
    pl.must_hit = vec!["inverse of zero", "inverse of a base-field element", "inverse of a proper extension element", "negative exponent", "exponent of 32 bits or more"];
    let mut t = vec![];
    for p in if th { vec![3u64, 7, 11, 19, 23, 31] } else { vec![3u64, 7, 11] } {
        for i in 0..p * p {
            t.push((p, i));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny p, all pairs", n, move |ctx| {
        let (p, i) = t[ctx.case as usize];
        let g = G(F::new(&big(p)));
        let f = lib!(ctx, Fp2::new(big(p)), "Fp2::new({p})");
        let u = (big(i / p), big(i % p));
        fp2_unary(ctx, &f, &g, &u, 0)?;
        fp2_unary(ctx, &f, &g, &u, 1)?;
        for (j, v) in all2(p).into_iter().enumerate() {
            fp2_case(ctx, &f, &g, &u, &v, j)?;
        }
        for e in (-3 * (p as i64))..=(p * p + 3) as i64 {
            fp2_pow(ctx, &f, &g, &u, &BigInt::from(e))?;
        }
        Ok(())
    });
    pl.job("large p", many(th, 700, 20000), |ctx| {
        let p = big_prime(ctx, 540, |r| r % 4 == 3);
        let g = G(F::new(&p));
        let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new({p})");
        for k in 0..8 {
            let u = elt2(&mut ctx.rng, &p);
            let v = match ctx.rng.below(6) {
                0 => u.clone(),
                1 => g.neg(&u),
                2 => (u.0.clone(), g.0.neg(&u.1)),
                3 => partner2(&mut ctx.rng, &g, &u),
                _ => elt2(&mut ctx.rng, &p),
            };
            ctx.sample(|| format!("p={p} u={} v={}", s2(&u), s2(&v)));
            fp2_case(ctx, &f, &g, &u, &v, k)?;
            fp2_unary(ctx, &f, &g, &u, k)?;
        }
        let u = elt2(&mut ctx.rng, &p);
        let e = exponent(&mut ctx.rng, &p);
        fp2_pow(ctx, &f, &g, &u, &e)?;
        let bits = 20 + ctx.rng.below(60);
        let e = bi(&gen::pattern(&mut ctx.rng, bits));
        fp2_pow(ctx, &f, &g, &u, &e)?;
        Ok(())
    });
    pl
}

pub fn fp2_sqrt(ctx: &mut Ctx, f: &Fp2, g: &G, u: &N2, order: usize) -> R {
    let x = mk2(ctx, f, u)?;
    let su = s2(u);
    let p = &g.0.p;
    let sq = g.is_square(u);
    for step in 0..2 {
        if (order + step) & 1 == 0 {
            let got = lib!(ctx, x.is_square(), "is_square({su}) in GF({p})^2");
            ensure!(ctx, got == sq, "GF({p})^2: is_square({su}) = {got}, expected {sq}");
        } else {
            let r = lib!(ctx, x.sqrt(), "sqrt({su}) in GF({p})^2");
            let be = lib!(ctx, r.to_bytes_be(), "encoding the root");
            if sq {
                let n = g.0.size();
                ensure!(ctx, be.len() == 2 * n, "GF({p})^2: root of {su} encodes to {} bytes", be.len());
                let v = (N::from_bytes_be(&be[..n]), N::from_bytes_be(&be[n..]));
                ensure!(ctx, g.mul(&v, &v) == *u, "GF({p})^2: sqrt({su}) = {}, whose square is {}", s2(&v), s2(&g.mul(&v, &v)));
                ctx.hit(match (u.0.is_zero(), u.1.is_zero()) {
                    (true, true) => "root of zero",
                    (false, true) => {
                        if g.0.is_square(&u.0) {
                            "root of a base-field square"
                        } else {
                            "root of a base-field non-square"
                        }
                    }
                    (true, false) => "root of an imaginary element",
                    _ => "root of a general element",
                });
            } else {
                ctx.hit("root of a non-square returned");
            }
        }
    }
    ctx.seen(&[&g.be(u), &p.to_bytes_le(), &[order as u8 & 1]]);
    Ok(())
}

pub fn c06(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C06",
        "a case is one extension element queried for squareness and root (all elements for tiny p; squares, non-squares, base-field and imaginary elements for large p = 3 mod 4); distinct = distinct (p, element, order of queries)",
    );
    pl.must_hit = vec![
        "root of zero",
        "root of a base-field square",
        "root of a base-field non-square",
        "root of an imaginary element",
        "root of a general element",
        "root of a non-square returned",
    ];
    let mut t = vec![];
    for p in gen::small_primes(sz(th, 47, 140)).into_iter().filter(|p| p % 4 == 3) {
        for a in 0..p {
            t.push((p, a));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny p, all elements", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let g = G(F::new(&big(p)));
        let f = lib!(ctx, Fp2::new(big(p)), "Fp2::new({p})");
        for b in 0..p {
            fp2_sqrt(ctx, &f, &g, &(big(a), big(b)), (a + b) as usize)?;
        }
        Ok(())
    });
    pl.job("large p", many(th, 300, 8000), |ctx| {
        let p = big_prime(ctx, 540, |r| r % 4 == 3);
        let g = G(F::new(&p));
        let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new({p})");
        for k in 0..6 {
            let mut u = elt2(&mut ctx.rng, &p);
            if k % 2 == 0 {
                u = g.mul(&u, &u);
            } else if k == 3 {
                // structured norm, square or not
                let n = gen::elt(&mut ctx.rng, &p);
                let n = if ctx.rng.bool() { g.0.sqr(&n) } else { n };
                if let Some(v) = g.0.sqrt(&g.0.sub(&n, &g.0.sqr(&u.0))) {
                    u.1 = v;
                    ctx.hit("structured norm");
                }
            }
            ctx.sample(|| format!("p={p} u={}", s2(&u)));
            let o = ctx.rng.below(2);
            fp2_sqrt(ctx, &f, &g, &u, o)?;
        }
        for u in [(N::zero(), N::zero()), (N::one(), N::zero()), (&p - 1u32, N::zero())] {
            fp2_sqrt(ctx, &f, &g, &u, 1)?;
        }
        Ok(())
    });
    pl
}

pub fn c07(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C07",
        "a case is one element and its negative (all elements of tiny fields and tiny extensions; structured elements and computed results in large ones); distinct = distinct (field, element)",
    );
    pl.must_hit = vec!["prime field", "extension, constant part nonzero", "extension, constant part zero"];
    fn one(ctx: &mut Ctx, f: &Fp, m: &F, a: &N) -> R {
        let x = lib!(ctx, f.elt(bi(a)), "elt");
        let s = lib!(ctx, x.sgn0(), "sgn0({a}) mod {}", m.p);
        ensure!(ctx, s == m.sgn(a), "mod {}: sgn0({a}) = {s}", m.p);
        // the negative is obtained by arithmetic
        let y = lib!(ctx, -&x, "neg");
        let s = lib!(ctx, y.sgn0(), "sgn0(-{a}) mod {}", m.p);
        let w = if a.is_zero() { 1 } else { -m.sgn(a) };
        ensure!(ctx, s == w, "mod {}: sgn0(-({a})) = {s}, while sgn0({a}) = {}", m.p, m.sgn(a));
        ctx.hit("prime field");
        ctx.seen(&[&m.be(a), &m.p.to_bytes_le()]);
        Ok(())
    }
    fn two(ctx: &mut Ctx, f: &Fp2, g: &G, u: &N2) -> R {
        let x = mk2(ctx, f, u)?;
        let w = if u.0.is_zero() { g.0.sgn(&u.1) } else { g.0.sgn(&u.0) };
        let s = lib!(ctx, x.sgn0(), "sgn0({}) in GF({})^2", s2(u), g.0.p);
        ensure!(ctx, s == w, "GF({})^2: sgn0({}) = {s}, expected {w}", g.0.p, s2(u));
        let y = lib!(ctx, -&x, "neg");
        let s = lib!(ctx, y.sgn0(), "sgn0(-{})", s2(u));
        let zero = u.0.is_zero() && u.1.is_zero();
        ensure!(ctx, s == if zero { 1 } else { -w }, "GF({})^2: sgn0(-{}) = {s}", g.0.p, s2(u));
        ctx.hit(if u.0.is_zero() { "extension, constant part zero" } else { "extension, constant part nonzero" });
        ctx.seen(&[b"2", &g.be(u), &g.0.p.to_bytes_le()]);
        Ok(())
    }
    let primes = gen::small_primes(sz(th, 600, 3000));
    let n = primes.len() as u64;
    pl.job("tiny fields", n, move |ctx| {
        let p = primes[ctx.case as usize];
        let m = F::new(&big(p));
        let f = lib!(ctx, Fp::new(big(p)), "Fp::new({p})");
        for a in 0..p {
            one(ctx, &f, &m, &big(a))?;
        }
        if p % 4 == 3 && p < 64 {
            let g = G(m);
            let f = lib!(ctx, Fp2::new(big(p)), "Fp2::new({p})");
            for u in all2(p) {
                two(ctx, &f, &g, &u)?;
            }
        }
        Ok(())
    });
    pl.job("large fields", many(th, 1500, 40000), |ctx| {
        let p = big_prime(ctx, 600, |_| true);
        let m = F::new(&p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
        for _ in 0..12 {
            let a = gen::elt(&mut ctx.rng, &p);
            ctx.sample(|| format!("p={p} a={a}"));
            one(ctx, &f, &m, &a)?;
        }
        if (&p % 4u32) == big(3) {
            let g = G(m);
            let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new({p})");
            for _ in 0..8 {
                let u = elt2(&mut ctx.rng, &p);
                two(ctx, &f, &g, &u)?;
            }
        }
        Ok(())
    });
    giant_job(&mut pl, th, 8, |ctx, p| {
        let m = F::new(p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        let f2 = lib!(ctx, Fp2::new(p.clone()), "Fp2::new");
        for _ in 0..4 {
            let a = gen::elt(&mut ctx.rng, p);
            one(ctx, &f, &m, &a)?;
            let u = elt2(&mut ctx.rng, p);
            two(ctx, &f2, &G(m.clone()), &u)?;
        }
        Ok(())
    });
    pl
}

