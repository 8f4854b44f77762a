//! C17-C21, C26: hash-to-curve maps, rational maps, isogenies, constructors.
use super::curves::{mixed_curve, named_torsion};
use super::fields::sqrt_ok;
use super::{many, sz};
use crate::cut::*;
use crate::gen::{self, big};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{self, Kind, F, N, RC, RP};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{EllipticCurve, Isogeny, MapToCurve, RationalMap};
use redox_ecc::instances as ins;
use redox_ecc::{edwards, montgomery, weierstrass};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;

type WC = weierstrass::Curve;
type WP = weierstrass::Point;
type MC = montgomery::Curve;
type MP = montgomery::Point;
type EC = edwards::Curve;
type EP = edwards::Point;

fn m16(p: &N) -> u32 {
    (p % 16u32).to_u32_digits().first().copied().unwrap_or(0)
}

fn supported_primes(lo: u64, hi: u64) -> Vec<u64> {
    gen::small_primes(hi).into_iter().filter(|p| *p >= lo && sqrt_ok((*p % 16) as u32)).collect()
}

/// A curve with some affine generator (order irrelevant for the maps).
fn curve_ab(kind: Kind, p: &N, a: &N, b: &N, s: &N) -> Option<RC> {
    let f = F::new(p);
    if !nonsingular(kind, &f, a, b) {
        return None;
    }
    let mut rc =
        RC { kind, name: "", f, a: a.clone(), b: b.clone(), s: s.clone(), r: big(7), h: N::one(), g: RP::O };
    let mut c = N::zero();
    while c < *p && c < big(2000) {
        if let Some(q) = rc.with_coord(&c).into_iter().find(|q| !rc.is_id(q)) {
            rc.g = q;
            return Some(rc);
        }
        c += 1u32;
    }
    None
}

// ------------------------------------------------ preconditions (reference)

/// Documented preconditions of simplified SWU which the map cannot do without.
pub fn sswu_need(rc: &RC, z: &N) -> bool {
    let f = &rc.f;
    if rc.a.is_zero() || rc.b.is_zero() || f.is_square(z) || *z == f.small(-1) {
        return false;
    }
    f.is_square(&rc.g(&f.div(&rc.b, &f.mul(z, &rc.a))))
}

/// RFC 9380 additionally wants g(x) - Z irreducible.
pub fn sswu_rfc(rc: &RC, z: &N) -> bool {
    sswu_need(rc, z) && !cubic_has_root(&rc.f, &N::zero(), &rc.a, &rc.f.sub(&rc.b, z))
}

pub fn svdw_ok(rc: &RC, z: &N) -> bool {
    let f = &rc.f;
    let gz = rc.g(z);
    if gz.is_zero() {
        return false;
    }
    let t = f.add(&f.mul(&f.small(3), &f.sqr(z)), &f.mul(&f.small(4), &rc.a));
    let t = f.div(&f.neg(&t), &f.mul(&f.small(4), &gz));
    let g2 = rc.g(&f.div(&f.neg(z), &f.small(2)));
    !t.is_zero() && f.is_square(&t) && (f.is_square(&gz) || f.is_square(&g2))
}

/// Z candidates in the order 1,-1,2,-2,...
pub fn first_z(f: &F, ok: impl Fn(&N) -> bool) -> Option<N> {
    for i in 1..400i64 {
        for s in [i, -i] {
            let z = f.small(s);
            if ok(&z) {
                return Some(z);
            }
        }
    }
    None
}

/// u with Z u^2 = t, both signs.
fn us_with(f: &F, z: &N, t: &N) -> Vec<N> {
    match f.sqrt(&f.div(t, z)) {
        Some(u) => vec![f.neg(&u), u],
        None => vec![],
    }
}

/// Structured inputs, followed through their negatives.
fn some_us(ctx: &mut Ctx, f: &F, n: usize) -> Vec<N> {
    let mut v = vec![];
    for _ in 0..n {
        let u = gen::elt(&mut ctx.rng, &f.p);
        if ctx.rng.one_in(3) {
            v.push(f.neg(&u));
        }
        v.push(u);
    }
    v
}

fn seen_u(ctx: &mut Ctx, rc: &RC, z: &N, u: &N) {
    ctx.seen(&[
        &rc.f.p.to_bytes_le(),
        &rc.a.to_bytes_le(),
        &rc.b.to_bytes_le(),
        &z.to_bytes_le(),
        &u.to_bytes_le(),
    ]);
}

// ------------------------------------------------ user-supplied maps

/// An "isogeny" supplied by the user of the library: it records what it is given
/// and answers with a predetermined point.
struct RecIso {
    dom: WC,
    cod: WC,
    answer: WP,
    log: Rc<RefCell<Vec<WP>>>,
}

impl Isogeny for RecIso {
    type E0 = WC;
    type E1 = WC;
    fn domain(&self) -> WC {
        self.dom.clone()
    }
    fn codomain(&self) -> WC {
        self.cod.clone()
    }
    fn push(&self, p: WP) -> WP {
        self.log.borrow_mut().push(p);
        self.answer.clone()
    }
}

struct RecRat {
    dom: EC,
    cod: MC,
    answer: EP,
    log: Rc<RefCell<Vec<MP>>>,
}

impl RationalMap for RecRat {
    type E0 = EC;
    type E1 = MC;
    fn domain(&self) -> EC {
        self.dom.clone()
    }
    fn codomain(&self) -> MC {
        self.cod.clone()
    }
    fn push(&self, _p: EP) -> MP {
        self.cod.identity()
    }
    fn pull(&self, p: MP) -> EP {
        self.log.borrow_mut().push(p);
        self.answer.clone()
    }
}

// ------------------------------------------------------------------ C17

pub fn sswu_check(ctx: &mut Ctx, c: &Crv<W>, m: &weierstrass::SSWU, z: &N, u: &N) -> R<RP> {
    let f = &c.rc.f;
    let want = c.rc.sswu(z, u);
    let d = c.rc.desc();
    let got = lib!(ctx, m.map(&c.fe(u)), "SSWU(Z={z}) of u={u} on {d}");
    c.expect(ctx, &got, &want, || format!("SSWU(Z={z}) of u={u}"))?;
    let on = lib!(ctx, c.e.is_on_curve(&got), "is_on_curve");
    ensure!(ctx, on, "on {d}: SSWU(Z={z}) of u={u} is not on the curve");
    let t = f.mul(z, &f.sqr(u));
    if u.is_zero() {
        ctx.hit("u = 0");
    } else if t == f.small(-1) {
        ctx.hit("Z*u^2 = -1");
    }
    if let RP::A(x, y) = &want {
        if y.is_zero() {
            ctx.hit("y = 0");
        }
        if !u.is_zero() && t != f.small(-1) {
            let x1 = f.mul(&f.div(&f.neg(&c.rc.b), &c.rc.a), &f.add(&N::one(), &f.inv(&f.add(&f.sqr(&t), &t))));
            if *x == x1 {
                ctx.hit("first candidate");
            } else {
                ctx.hit("second candidate");
            }
        }
    }
    seen_u(ctx, &c.rc, z, u);
    Ok(want)
}

/// u values at and around the exceptional inputs of SSWU.
fn sswu_special(rc: &RC, z: &N) -> Vec<N> {
    let f = &rc.f;
    let mut v = vec![N::zero(), N::one(), f.small(-1)];
    v.extend(us_with(f, z, &f.small(-1)));
    v.extend(us_with(f, z, &N::one()));
    v.extend(us_with(f, z, z));
    // x1 = 0: t^2 + t + 1 = 0
    if let Some(s) = f.sqrt(&f.small(-3)) {
        for s in [s.clone(), f.neg(&s)] {
            v.extend(us_with(f, z, &f.div(&f.sub(&s, &N::one()), &f.small(2))));
        }
    }
    v
}

pub fn iso_image(co: &[Vec<N>; 4], f: &F, p: &RP) -> RP {
    let RP::A(x, y) = p else { return RP::O };
    let ev = |c: &Vec<N>| c.iter().rev().fold(N::zero(), |a, k| f.add(&f.mul(&a, x), k));
    let (xn, xd, yn, yd) = (ev(&co[0]), ev(&co[1]), ev(&co[2]), ev(&co[3]));
    if xd.is_zero() {
        return RP::O;
    }
    assert!(!yd.is_zero());
    RP::A(f.div(&xn, &xd), f.mul(y, &f.div(&yn, &yd)))
}

pub fn lib_iso(name: &str) -> Box<dyn Isogeny<E0 = WC, E1 = WC>> {
    match name {
        "secp256k1_3iso" => Box::new(ins::get_isogeny_secp256k1()),
        _ => Box::new(ins::get_isogeny_bls12381g1()),
    }
}

pub fn iso_target(name: &str) -> &'static str {
    match name {
        "secp256k1_3iso" => "secp256k1",
        _ => "bls12381_g1",
    }
}

pub const ISO: [&str; 2] = ["secp256k1_3iso", "bls12381_g1_11iso"];

pub fn c17(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C17",
        "a case is one input u mapped by one SSWU instance and compared with the RFC 9380 definition (every u for every admissible (A,B,Z) over tiny fields; exceptional and structured u for named and random curves; the A*B=0 variant through the library's and through recording user-supplied isogenies); distinct = distinct (curve, Z, u)",
    );
    pl.must_hit = vec!["u = 0", "Z*u^2 = -1", "first candidate", "second candidate", "isogenous variant", "user-supplied isogeny"];
    let mut t = vec![];
    for p in supported_primes(5, sz(th, 23, 61)) {
        for a in 1..p {
            t.push((p, a));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny curves, every A, B, Z and u", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let pn = big(p);
        // beyond the smallest fields, a slice of the B values
        let step = if p <= 13 { 1 } else if ctx.thorough { 1 + p / 24 } else { 3 };
        let mut b = 1 + a % step;
        while b < p {
            if let Some(rc) = curve_ab(Kind::W, &pn, &big(a), &big(b), &N::zero()) {
                let c = Crv::<W>::new(ctx, &rc)?;
                for z in 1..p {
                    let z = big(z);
                    if !sswu_need(&rc, &z) {
                        continue;
                    }
                    let m = match guarded(|| weierstrass::SSWU::new(c.e.clone(), c.fe(&z))) {
                        Ok(m) => m,
                        // outside RFC 9380's criteria refusal is acceptable
                        Err(_) if !sswu_rfc(&rc, &z) => continue,
                        Err(e) => return fail(format!("SSWU::new({}, Z={z}) refused: {e}", rc.desc())),
                    };
                    for u in 0..p {
                        sswu_check(ctx, &c, &m, &z, &big(u))?;
                    }
                }
            }
            b += step;
        }
        Ok(())
    });
    let named = ["P256", "P384", "P521", "secp256k1_3iso", "bls12381_g1_11iso"];
    pl.job("named curves", many(th, 50, 1500), move |ctx| {
        let name = named[ctx.case as usize % named.len()];
        let rc = crate::named::rc(name);
        let c = Crv::<W>::new(ctx, &rc)?;
        let std = match name {
            "P256" => -10i64,
            "P384" => -12,
            "P521" => -4,
            "secp256k1_3iso" => -11,
            _ => 11,
        };
        let z = if ctx.case % 3 == 0 {
            // any other admissible Z
            loop {
                let z = gen::nonzero_elt(&mut ctx.rng, &rc.f.p);
                if sswu_rfc(&rc, &z) {
                    break z;
                }
            }
        } else {
            rc.f.small(std)
        };
        assert!(sswu_need(&rc, &z));
        let m = lib!(ctx, weierstrass::SSWU::new(c.e.clone(), c.fe(&z)), "SSWU::new({name}, Z={z})");
        ctx.sample(|| format!("{name} Z={z}"));
        for u in sswu_special(&rc, &z) {
            sswu_check(ctx, &c, &m, &z, &u)?;
        }
        for u in some_us(ctx, &rc.f, 6) {
            let w = sswu_check(ctx, &c, &m, &z, &u)?;
            // feed coordinates of results back in
            if let RP::A(x, y) = w {
                sswu_check(ctx, &c, &m, &z, &x)?;
                sswu_check(ctx, &c, &m, &z, &y)?;
            }
        }
        Ok(())
    });
    pl.job("random curves", many(th, 250, 8000), move |ctx| {
        let p = if ctx.case % 4 == 0 {
            gen::any_special(&mut ctx.rng, sqrt_ok)
        } else {
            let bits = 4 + ctx.rng.below(280);
            gen::rand_prime(&mut ctx.rng, bits, sqrt_ok)
        };
        let f = F::new(&p);
        for _ in 0..20 {
            let (a, b) = (gen::nonzero_elt(&mut ctx.rng, &p), gen::nonzero_elt(&mut ctx.rng, &p));
            let Some(rc) = curve_ab(Kind::W, &p, &a, &b, &N::zero()) else { continue };
            let Some(z) = first_z(&f, |z| sswu_rfc(&rc, z)) else { continue };
            let c = Crv::<W>::new(ctx, &rc)?;
            let m = lib!(ctx, weierstrass::SSWU::new(c.e.clone(), c.fe(&z)), "SSWU::new({}, Z={z})", rc.desc());
            let mut us = sswu_special(&rc, &z);
            us.extend(some_us(ctx, &f, 8));
            for u in us {
                sswu_check(ctx, &c, &m, &z, &u)?;
            }
            break;
        }
        Ok(())
    });
    pl.job("isogenous variant, library isogenies", many(th, 24, 800), move |ctx| {
        let name = ISO[ctx.case as usize % 2];
        let (r0, r1) = (crate::named::rc(name), crate::named::rc(iso_target(name)));
        let co = crate::named::iso_coeffs(name);
        let (c0, c1) = (Crv::<W>::new(ctx, &r0)?, Crv::<W>::new(ctx, &r1)?);
        let z = r0.f.small(if name == "secp256k1_3iso" { -11 } else { 11 });
        let m = lib!(
            ctx,
            weierstrass::SSWUAB0::new(c1.e.clone(), c0.fe(&z), lib_iso(name)),
            "SSWUAB0::new({}, Z={z})",
            r1.name
        );
        let mut us = sswu_special(&r0, &z);
        us.extend(some_us(ctx, &r0.f, 6));
        for u in us {
            let want = iso_image(&co, &r0.f, &r0.sswu(&z, &u));
            let got = lib!(ctx, m.map(&c1.fe(&u)), "SSWUAB0 of u={u} on {}", r1.name);
            c1.expect(ctx, &got, &want, || format!("SSWUAB0(Z={z}) of u={u}"))?;
            ctx.hit("isogenous variant");
            seen_u(ctx, &r1, &z, &u);
        }
        Ok(())
    });
    pl.job("isogenous variant, recording isogenies", many(th, 150, 3000), move |ctx| {
        let ps = supported_primes(7, 47);
        let p = big(*ctx.rng.pick(&ps));
        let f = F::new(&p);
        let (r0, z) = loop {
            let (a, b) = (gen::nonzero_elt(&mut ctx.rng, &p), gen::nonzero_elt(&mut ctx.rng, &p));
            let Some(rc) = curve_ab(Kind::W, &p, &a, &b, &N::zero()) else { continue };
            if let Some(z) = first_z(&f, |z| sswu_rfc(&rc, z)) {
                break (rc, z);
            }
        };
        let r1 = loop {
            let t = gen::nonzero_elt(&mut ctx.rng, &p);
            let (a, b) = if ctx.rng.bool() { (N::zero(), t) } else { (t, N::zero()) };
            if let Some(rc) = curve_ab(Kind::W, &p, &a, &b, &N::zero()) {
                break rc;
            }
        };
        let (c0, c1) = (Crv::<W>::new(ctx, &r0)?, Crv::<W>::new(ctx, &r1)?);
        let log = Rc::new(RefCell::new(vec![]));
        let ra = rand_point(&r1, &mut ctx.rng);
        let answer = c1.pt(ctx, &ra)?;
        let iso = RecIso { dom: c0.e.clone(), cod: c1.e.clone(), answer, log: log.clone() };
        let m = lib!(
            ctx,
            weierstrass::SSWUAB0::new(c1.e.clone(), c0.fe(&z), Box::new(iso)),
            "SSWUAB0::new({}, Z={z}, user isogeny from {})",
            r1.desc(),
            r0.desc()
        );
        let mut u = N::zero();
        while u < p {
            log.borrow_mut().clear();
            let got = lib!(ctx, m.map(&c1.fe(&u)), "SSWUAB0 of u={u}");
            c1.expect(ctx, &got, &ra, || format!("SSWUAB0 of u={u} through a user isogeny"))?;
            let l = log.borrow().clone();
            ensure!(ctx, !l.is_empty(), "SSWUAB0 of u={u} never consulted the isogeny");
            let want = r0.sswu(&z, &u);
            for q in l {
                c0.expect(ctx, &q, &want, || format!("the point given to the isogeny by SSWUAB0(Z={z}) of u={u}"))?;
            }
            ctx.hit("user-supplied isogeny");
            seen_u(ctx, &r1, &z, &u);
            u += 1u32;
        }
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C18

pub fn svdw_check(ctx: &mut Ctx, c: &Crv<W>, m: &weierstrass::SVDW, z: &N, u: &N) -> R<RP> {
    let f = &c.rc.f;
    let want = c.rc.svdw(z, u);
    let d = c.rc.desc();
    let got = lib!(ctx, m.map(&c.fe(u)), "SvdW(Z={z}) of u={u} on {d}");
    c.expect(ctx, &got, &want, || format!("SvdW(Z={z}) of u={u}"))?;
    let on = lib!(ctx, c.e.is_on_curve(&got), "is_on_curve");
    ensure!(ctx, on, "on {d}: SvdW(Z={z}) of u={u} is not on the curve");
    let t = f.mul(&f.sqr(u), &c.rc.g(z));
    if u.is_zero() {
        ctx.hit("u = 0");
    }
    if t.is_one() || t == f.small(-1) {
        ctx.hit("vanishing denominator");
    }
    if let RP::A(x, _) = &want {
        if *x == *z {
            ctx.hit("x = Z");
        }
    }
    seen_u(ctx, &c.rc, z, u);
    Ok(want)
}

fn svdw_special(rc: &RC, z: &N) -> Vec<N> {
    let f = &rc.f;
    let gz = rc.g(z);
    let mut v = vec![N::zero(), N::one(), f.small(-1)];
    v.extend(us_with(f, &gz, &f.small(-1)));
    v.extend(us_with(f, &gz, &N::one()));
    v.extend(us_with(f, &gz, &f.small(2)));
    v.extend(us_with(f, &gz, &f.small(-2)));
    v
}

pub fn c18(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C18",
        "a case is one input u mapped by one SvdW instance and compared with the RFC 9380 definition (every u for every admissible (A,B,Z) over tiny fields; exceptional and structured u for named and random curves); distinct = distinct (curve, Z, u)",
    );
    pl.must_hit = vec!["u = 0", "vanishing denominator", "x = Z"];
    let mut t = vec![];
    for p in supported_primes(5, sz(th, 23, 61)) {
        for a in 0..p {
            t.push((p, a));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny curves, every A, B, Z and u", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let pn = big(p);
        let step = if p <= 13 { 1 } else if ctx.thorough { 1 + p / 24 } else { 4 };
        let mut b = a % step;
        while b < p {
            if let Some(rc) = curve_ab(Kind::W, &pn, &big(a), &big(b), &N::zero()) {
                let c = Crv::<W>::new(ctx, &rc)?;
                for z in 0..p {
                    let z = big(z);
                    if !svdw_ok(&rc, &z) {
                        continue;
                    }
                    let m = lib!(ctx, weierstrass::SVDW::new(c.e.clone(), c.fe(&z)), "SVDW::new({}, Z={z})", rc.desc());
                    for u in 0..p {
                        svdw_check(ctx, &c, &m, &z, &big(u))?;
                    }
                }
            }
            b += step;
        }
        Ok(())
    });
    let named = ["P256", "P384", "P521", "secp256k1", "bls12381_g1", "secp256k1_3iso", "bls12381_g1_11iso"];
    pl.job("named curves", many(th, 56, 1500), move |ctx| {
        let rc = crate::named::rc(named[ctx.case as usize % named.len()]);
        let c = Crv::<W>::new(ctx, &rc)?;
        let z = if ctx.case % 3 == 0 {
            loop {
                let z = gen::nonzero_elt(&mut ctx.rng, &rc.f.p);
                if svdw_ok(&rc, &z) {
                    break z;
                }
            }
        } else {
            first_z(&rc.f, |z| svdw_ok(&rc, z)).expect("SvdW parameter")
        };
        let m = lib!(ctx, weierstrass::SVDW::new(c.e.clone(), c.fe(&z)), "SVDW::new({}, Z={z})", rc.name);
        ctx.sample(|| format!("{} Z={z}", rc.name));
        for u in svdw_special(&rc, &z) {
            svdw_check(ctx, &c, &m, &z, &u)?;
        }
        for u in some_us(ctx, &rc.f, 6) {
            let w = svdw_check(ctx, &c, &m, &z, &u)?;
            if let RP::A(x, y) = w {
                svdw_check(ctx, &c, &m, &z, &x)?;
                svdw_check(ctx, &c, &m, &z, &y)?;
            }
        }
        Ok(())
    });
    pl.job("random curves", many(th, 250, 8000), move |ctx| {
        let p = if ctx.case % 4 == 0 {
            gen::any_special(&mut ctx.rng, sqrt_ok)
        } else {
            let bits = 4 + ctx.rng.below(280);
            gen::rand_prime(&mut ctx.rng, bits, sqrt_ok)
        };
        let f = F::new(&p);
        for _ in 0..20 {
            let (a, b) = match ctx.rng.below(4) {
                0 => (N::zero(), gen::nonzero_elt(&mut ctx.rng, &p)),
                1 => (gen::nonzero_elt(&mut ctx.rng, &p), N::zero()),
                _ => (gen::elt(&mut ctx.rng, &p), gen::elt(&mut ctx.rng, &p)),
            };
            let Some(rc) = curve_ab(Kind::W, &p, &a, &b, &N::zero()) else { continue };
            let Some(z) = first_z(&f, |z| svdw_ok(&rc, z)) else { continue };
            let c = Crv::<W>::new(ctx, &rc)?;
            let m = lib!(ctx, weierstrass::SVDW::new(c.e.clone(), c.fe(&z)), "SVDW::new({}, Z={z})", rc.desc());
            let mut us = svdw_special(&rc, &z);
            us.extend(some_us(ctx, &f, 8));
            for u in us {
                svdw_check(ctx, &c, &m, &z, &u)?;
            }
            break;
        }
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C19

pub fn ell2_check(ctx: &mut Ctx, c: &Crv<M>, m: &montgomery::Ell2, z: &N, u: &N) -> R<RP> {
    let f = &c.rc.f;
    let want = c.rc.ell2(z, u);
    let d = c.rc.desc();
    let got = lib!(ctx, m.map(&c.fe(u)), "Elligator2(Z={z}) of u={u} on {d}");
    c.expect(ctx, &got, &want, || format!("Elligator2(Z={z}) of u={u}"))?;
    let on = lib!(ctx, c.e.is_on_curve(&got), "is_on_curve");
    ensure!(ctx, on, "on {d}: Elligator2(Z={z}) of u={u} is not on the curve");
    let t = f.mul(z, &f.sqr(u));
    if u.is_zero() {
        ctx.hit("u = 0");
    }
    if t == f.small(-1) {
        ctx.hit("Z*u^2 = -1");
    }
    if let RP::A(_, y) = &want {
        if y.is_zero() {
            ctx.hit("y = 0");
        } else {
            let y0 = f.div(y, &c.rc.b);
            ctx.hit(if f.sgn(&y0) == -1 { "first candidate" } else { "second candidate" });
        }
    }
    if !c.rc.b.is_one() {
        ctx.hit("B other than 1");
    }
    seen_u(ctx, &c.rc, z, u);
    Ok(want)
}

fn ell2_special(f: &F, z: &N) -> Vec<N> {
    let mut v = vec![N::zero(), N::one(), f.small(-1)];
    for t in [-1i64, 1, -2, 2, -3] {
        v.extend(us_with(f, z, &f.small(t)));
    }
    v.extend(us_with(f, z, z));
    v
}

/// Elligator 2 preconditions of RFC 9380 (beyond Z non-square).
pub fn ell2_rfc(rc: &RC, z: &N) -> bool {
    let f = &rc.f;
    !rc.a.is_zero() && !rc.b.is_zero() && !f.is_square(z) && !f.is_square(&f.sub(&f.sqr(&rc.a), &f.small(4)))
}

pub struct Rat {
    pub name: &'static str,
    pub ed: &'static str,
    pub mt: &'static str,
    c: N,
}

pub fn rats() -> &'static [Rat; 2] {
    static T: OnceLock<[Rat; 2]> = OnceLock::new();
    T.get_or_init(|| {
        [
            Rat { name: "25519", ed: "edwards25519", mt: "curve25519", c: refm::c25519() },
            Rat { name: "448", ed: "edwards448", mt: "curve448", c: N::zero() },
        ]
    })
}

impl Rat {
    pub fn push(&self, f: &F, p: &RP) -> RP {
        match self.name {
            "25519" => refm::push25519(f, &self.c, p),
            _ => refm::push448(f, p),
        }
    }
    pub fn pull(&self, f: &F, p: &RP) -> RP {
        match self.name {
            "25519" => refm::pull25519(f, &self.c, p),
            _ => refm::pull448(f, p),
        }
    }
    pub fn lib(&self) -> Box<dyn RationalMap<E0 = EC, E1 = MC>> {
        match self.name {
            "25519" => Box::new(ins::edwards25519_to_curve25519()),
            _ => Box::new(ins::edwards448_to_curve448()),
        }
    }
}

pub fn nonsquare(ctx: &mut Ctx, f: &F) -> N {
    loop {
        let z = gen::nonzero_elt(&mut ctx.rng, &f.p);
        if !f.is_square(&z) {
            return z;
        }
    }
}

pub fn c19(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C19",
        "a case is one input u mapped by one Elligator 2 instance and compared with the RFC 9380 definition (every u for every (A,B,Z) over tiny fields; exceptional and structured u for named and random curves; the Edwards variant through the library's and through recording user-supplied rational maps); distinct = distinct (curve, Z, u)",
    );
    pl.must_hit = vec![
        "u = 0",
        "Z*u^2 = -1",
        "y = 0",
        "first candidate",
        "second candidate",
        "B other than 1",
        "Edwards variant",
        "user-supplied rational map",
    ];
    let mut t = vec![];
    for p in supported_primes(5, sz(th, 23, 61)) {
        for a in 1..p {
            t.push((p, a));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny curves, every A, B, Z and u", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let pn = big(p);
        let step = if p <= 13 { 1 } else if ctx.thorough { 1 + p / 16 } else { 5 };
        let mut b = 1;
        while b < p {
            if let Some(rc) = curve_ab(Kind::M, &pn, &big(a), &big(b), &N::one()) {
                let c = Crv::<M>::new(ctx, &rc)?;
                for z in 1..p {
                    let z = big(z);
                    if rc.f.is_square(&z) {
                        continue;
                    }
                    let m = match guarded(|| montgomery::Ell2::new(c.e.clone(), c.fe(&z))) {
                        Ok(m) => m,
                        Err(_) if !ell2_rfc(&rc, &z) => continue,
                        Err(e) => return fail(format!("Ell2::new({}, Z={z}) refused: {e}", rc.desc())),
                    };
                    for u in 0..p {
                        ell2_check(ctx, &c, &m, &z, &big(u))?;
                    }
                }
            }
            b += step;
        }
        Ok(())
    });
    let named = ["curve25519", "curve448"];
    pl.job("named curves", many(th, 40, 1500), move |ctx| {
        let rc = crate::named::rc(named[ctx.case as usize % 2]);
        let c = Crv::<M>::new(ctx, &rc)?;
        let z = if ctx.case % 3 == 0 {
            nonsquare(ctx, &rc.f)
        } else {
            rc.f.small(if rc.name == "curve25519" { 2 } else { -1 })
        };
        let m = match guarded(|| montgomery::Ell2::new(c.e.clone(), c.fe(&z))) {
            Ok(m) => m,
            Err(_) if !ell2_rfc(&rc, &z) => return Ok(()),
            Err(e) => return fail(format!("Ell2::new({}, Z={z}) refused: {e}", rc.desc())),
        };
        ctx.sample(|| format!("{} Z={z}", rc.name));
        for u in ell2_special(&rc.f, &z) {
            ell2_check(ctx, &c, &m, &z, &u)?;
        }
        for u in some_us(ctx, &rc.f, 6) {
            let w = ell2_check(ctx, &c, &m, &z, &u)?;
            if let RP::A(x, y) = w {
                ell2_check(ctx, &c, &m, &z, &x)?;
                ell2_check(ctx, &c, &m, &z, &y)?;
            }
        }
        Ok(())
    });
    pl.job("random curves", many(th, 250, 8000), move |ctx| {
        let p = if ctx.case % 4 == 0 {
            gen::any_special(&mut ctx.rng, sqrt_ok)
        } else {
            let bits = 4 + ctx.rng.below(280);
            gen::rand_prime(&mut ctx.rng, bits, sqrt_ok)
        };
        let f = F::new(&p);
        for _ in 0..40 {
            let a = gen::nonzero_elt(&mut ctx.rng, &p);
            let b = if ctx.rng.one_in(4) { N::one() } else { gen::nonzero_elt(&mut ctx.rng, &p) };
            let Some(rc) = curve_ab(Kind::M, &p, &a, &b, &N::one()) else { continue };
            let z = nonsquare(ctx, &f);
            let c = Crv::<M>::new(ctx, &rc)?;
            let m = match guarded(|| montgomery::Ell2::new(c.e.clone(), c.fe(&z))) {
                Ok(m) => m,
                Err(_) if !ell2_rfc(&rc, &z) => continue,
                Err(e) => return fail(format!("Ell2::new({}, Z={z}) refused: {e}", rc.desc())),
            };
            let mut us = ell2_special(&f, &z);
            us.extend(some_us(ctx, &f, 8));
            for u in us {
                ell2_check(ctx, &c, &m, &z, &u)?;
            }
            break;
        }
        Ok(())
    });
    pl.job("Edwards variant, library rational maps", many(th, 40, 1200), move |ctx| {
        let rat = &rats()[ctx.case as usize % 2];
        let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
        let (ce, cm) = (Crv::<E>::new(ctx, &re)?, Crv::<M>::new(ctx, &rm)?);
        let z = if ctx.case % 3 == 0 { nonsquare(ctx, &rm.f) } else { rm.f.small(if rat.name == "25519" { 2 } else { -1 }) };
        let m = match guarded(|| edwards::Ell2::new(ce.e.clone(), cm.fe(&z), Some(rat.lib()))) {
            Ok(m) => m,
            Err(_) if !ell2_rfc(&rm, &z) => return Ok(()),
            Err(e) => return fail(format!("edwards::Ell2::new({}, Z={z}) refused: {e}", re.name)),
        };
        let mut us = ell2_special(&re.f, &z);
        us.extend(some_us(ctx, &re.f, 8));
        // u whose Montgomery image has u-coordinate -1 (exceptional for the 25519 map)
        let f = &rm.f;
        us.extend(us_with(f, &z, &f.sub(&rm.a, &N::one())));
        for u in us {
            let want = rat.pull(&re.f, &rm.ell2(&z, &u));
            let got = lib!(ctx, m.map(&ce.fe(&u)), "Elligator2(Z={z}) of u={u} on {}", re.name);
            ce.expect(ctx, &got, &want, || format!("Elligator2(Z={z}) of u={u}"))?;
            let on = lib!(ctx, ce.e.is_on_curve(&got), "is_on_curve");
            ensure!(ctx, on, "on {}: Elligator2(Z={z}) of u={u} is not on the curve", re.name);
            ctx.hit("Edwards variant");
            seen_u(ctx, &re, &z, &u);
        }
        Ok(())
    });
    pl.job("Edwards variant, recording rational maps", many(th, 150, 3000), move |ctx| {
        let ps = supported_primes(7, 47);
        let p = big(*ctx.rng.pick(&ps));
        let f = F::new(&p);
        let (rm, z) = loop {
            let (a, b) = (gen::nonzero_elt(&mut ctx.rng, &p), gen::nonzero_elt(&mut ctx.rng, &p));
            let z = nonsquare(ctx, &f);
            let Some(rc) = curve_ab(Kind::M, &p, &a, &b, &N::one()) else { continue };
            if ell2_rfc(&rc, &z) {
                break (rc, z);
            }
        };
        let re = loop {
            let (a, b) = (gen::nonzero_elt(&mut ctx.rng, &p), gen::nonzero_elt(&mut ctx.rng, &p));
            if let Some(rc) = curve_ab(Kind::E, &p, &a, &b, &N::zero()) {
                break rc;
            }
        };
        let (ce, cm) = (Crv::<E>::new(ctx, &re)?, Crv::<M>::new(ctx, &rm)?);
        let log = Rc::new(RefCell::new(vec![]));
        let ra = rand_point(&re, &mut ctx.rng);
        let answer = ce.pt(ctx, &ra)?;
        let rat = RecRat { dom: ce.e.clone(), cod: cm.e.clone(), answer, log: log.clone() };
        let m = lib!(
            ctx,
            edwards::Ell2::new(ce.e.clone(), cm.fe(&z), Some(Box::new(rat))),
            "edwards::Ell2::new({}, Z={z}, user rational map to {})",
            re.desc(),
            rm.desc()
        );
        let mut u = N::zero();
        while u < p {
            log.borrow_mut().clear();
            let got = lib!(ctx, m.map(&ce.fe(&u)), "Elligator2 of u={u}");
            ce.expect(ctx, &got, &ra, || format!("Elligator2 of u={u} through a user rational map"))?;
            let l = log.borrow().clone();
            ensure!(ctx, !l.is_empty(), "Elligator2 of u={u} never consulted the rational map");
            let want = rm.ell2(&z, &u);
            for q in l {
                cm.expect(ctx, &q, &want, || format!("the point given to the rational map by Elligator2(Z={z}) of u={u}"))?;
            }
            ctx.hit("user-supplied rational map");
            seen_u(ctx, &re, &z, &u);
            u += 1u32;
        }
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C20

/// The point in several representations: affine, rescaled, normalised.
pub fn repr<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &RP, via: &RP, which: usize) -> R<C::P> {
    let q = c.pt(ctx, p)?;
    match which % 4 {
        0 => Ok(q),
        1 => {
            let v = c.pt(ctx, via)?;
            c.rescale(ctx, &q, &v)
        }
        2 => {
            let d = c.pt(ctx, &c.rc.sub(p, via))?;
            let v = c.pt(ctx, via)?;
            Ok(lib!(ctx, C::add(0, &d, &v), "sum on {}", c.rc.desc()))
        }
        _ => {
            let v = c.pt(ctx, via)?;
            let t = c.rescale(ctx, &q, &v)?;
            let n = lib!(ctx, C::neg(0, &t), "negation");
            Ok(lib!(ctx, C::neg(0, &n), "negation"))
        }
    }
}

fn seen_m(ctx: &mut Ctx, name: &str, dir: &str, p: &RP, rep: usize) {
    ctx.seen(&[name.as_bytes(), dir.as_bytes(), p.to_string().as_bytes(), &[rep as u8]]);
}

pub fn c20(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C20",
        "a case is one point pushed or pulled through a rational map in one internal representation and compared with the published coordinate formulas (all low-order points and their pairs; generic points plus low-order components; sums, identities and round trips checked on library values too); distinct = distinct (map, direction, point, representation)",
    );
    pl.must_hit = vec!["pushes", "pulls", "identity", "low-order points", "sums", "round trips", "rescaled representations"];
    pl.job("low-order points", 2 * 4, move |ctx| {
        let rat = &rats()[ctx.case as usize % 2];
        let rep = (ctx.case / 2) as usize;
        let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
        let mut te = named_torsion(rat.ed);
        te.push(re.id());
        let mut tm = named_torsion(rat.mt);
        tm.push(rm.id());
        for a in &te {
            for b in &te {
                one_sum(ctx, rat, Some((a, b)), None, rep)?;
            }
        }
        for a in &tm {
            for b in &tm {
                one_sum(ctx, rat, None, Some((a, b)), rep)?;
            }
        }
        Ok(())
    });
    pl.job("mixed points", many(th, 120, 4000), move |ctx| {
        let rat = &rats()[ctx.case as usize % 2];
        let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
        let (te, tm) = (named_torsion(rat.ed), named_torsion(rat.mt));
        for k in 0..3 {
            let (a, b) = (some_point(&re, &mut ctx.rng, &te), some_point(&re, &mut ctx.rng, &te));
            let (c, d) = (some_point(&rm, &mut ctx.rng, &tm), some_point(&rm, &mut ctx.rng, &tm));
            ctx.sample(|| format!("{} {a} {b} / {c} {d}", rat.name));
            one_sum(ctx, rat, Some((&a, &b)), Some((&c, &d)), k + ctx.case as usize)?;
        }
        Ok(())
    });
    pl
}

fn note_point(ctx: &mut Ctx, rc: &RC, p: &RP) {
    if rc.is_id(p) {
        ctx.hit("identity");
    } else if rc.is_id(&rc.mul_raw(p, &rc.h)) {
        ctx.hit("low-order points");
    }
}

pub fn one_sum(ctx: &mut Ctx, rat: &Rat, ed: Option<(&RP, &RP)>, mt: Option<(&RP, &RP)>, rep: usize) -> R {
    let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
    let f = re.f.clone();
    let (ce, cm) = (Crv::<E>::new(ctx, &re)?, Crv::<M>::new(ctx, &rm)?);
    let map = lib!(ctx, rat.lib(), "creating the {} map", rat.name);
    let dom = lib!(ctx, map.domain() == ce.e, "domain");
    let cod = lib!(ctx, map.codomain() == cm.e, "codomain");
    ensure!(ctx, dom && cod, "the {} map has the wrong domain or codomain", rat.name);
    if rep % 4 != 0 {
        ctx.hit("rescaled representations");
    }
    if let Some((a, b)) = ed {
        let mut imgs = vec![];
        let s = re.add(a, b);
        for (i, x) in [a, b, &s].into_iter().enumerate() {
            note_point(ctx, &re, x);
            let p = if i == 2 {
                let (pa, pb) = (repr(ctx, &ce, a, &re.g, rep)?, repr(ctx, &ce, b, &re.g, rep)?);
                lib!(ctx, E::add(0, &pa, &pb), "{a} + {b}")
            } else {
                repr(ctx, &ce, x, &re.g, rep)?
            };
            let want = rat.push(&f, x);
            let got = lib!(ctx, map.push(p.clone()), "push{}({x})", rat.name);
            cm.expect(ctx, &got, &want, || format!("push{} of {x} (representation {rep}, {})", rat.name, ce.show(&p)))?;
            let on = lib!(ctx, cm.e.is_on_curve(&got), "is_on_curve");
            ensure!(ctx, on, "push{} of {x} is not a point of the target: {}", rat.name, cm.show(&got));
            ctx.hit("pushes");
            seen_m(ctx, rat.name, "push", x, rep % 4);
            // back again
            let back = lib!(ctx, map.pull(got.clone()), "pull{}(push({x}))", rat.name);
            let bw = if rat.name == "25519" { x.clone() } else { re.mul_raw(x, &big(4)) };
            ce.expect(ctx, &back, &bw, || format!("pull{}(push({x}))", rat.name))?;
            ctx.hit("round trips");
            imgs.push(got);
        }
        let sum = lib!(ctx, M::add(0, &imgs[0], &imgs[1]), "push({a}) + push({b})");
        let eq = lib!(ctx, sum == imgs[2] && imgs[2] == sum, "comparison");
        ensure!(ctx, eq, "push{}({a}) + push({b}) differs from push({a} + {b})", rat.name);
        ctx.hit("sums");
    }
    if let Some((a, b)) = mt {
        let mut imgs = vec![];
        let s = rm.add(a, b);
        for (i, x) in [a, b, &s].into_iter().enumerate() {
            note_point(ctx, &rm, x);
            let p = if i == 2 {
                let (pa, pb) = (repr(ctx, &cm, a, &rm.g, rep)?, repr(ctx, &cm, b, &rm.g, rep)?);
                lib!(ctx, M::add(0, &pa, &pb), "{a} + {b}")
            } else {
                repr(ctx, &cm, x, &rm.g, rep)?
            };
            let want = rat.pull(&f, x);
            let got = lib!(ctx, map.pull(p.clone()), "pull{}({x})", rat.name);
            ce.expect(ctx, &got, &want, || format!("pull{} of {x} (representation {rep}, {})", rat.name, cm.show(&p)))?;
            let on = lib!(ctx, ce.e.is_on_curve(&got), "is_on_curve");
            ensure!(ctx, on, "pull{} of {x} is not a point of the target: {}", rat.name, ce.show(&got));
            ctx.hit("pulls");
            seen_m(ctx, rat.name, "pull", x, rep % 4);
            // later arithmetic sees a consistent representation
            let g = ce.pt(ctx, &re.g)?;
            let t = lib!(ctx, E::add(0, &got, &g), "pull({x}) + G");
            ce.expect(ctx, &t, &re.add(&want, &re.g), || format!("pull{}({x}) + G", rat.name))?;
            let back = lib!(ctx, map.push(got.clone()), "push{}(pull({x}))", rat.name);
            let bw = if rat.name == "25519" { x.clone() } else { rm.mul_raw(x, &big(4)) };
            cm.expect(ctx, &back, &bw, || format!("push{}(pull({x}))", rat.name))?;
            ctx.hit("round trips");
            imgs.push(got);
        }
        let sum = lib!(ctx, E::add(0, &imgs[0], &imgs[1]), "pull({a}) + pull({b})");
        let eq = lib!(ctx, sum == imgs[2] && imgs[2] == sum, "comparison");
        ensure!(ctx, eq, "pull{}({a}) + pull({b}) differs from pull({a} + {b})", rat.name);
        ctx.hit("sums");
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

pub fn iso_sum(ctx: &mut Ctx, name: &str, a: &RP, b: &RP, rep: usize) -> R {
    let (r0, r1) = (crate::named::rc(name), crate::named::rc(iso_target(name)));
    let co = crate::named::iso_coeffs(name);
    let f = &r0.f;
    let (c0, c1) = (Crv::<W>::new(ctx, &r0)?, Crv::<W>::new(ctx, &r1)?);
    let iso = lib!(ctx, lib_iso(name), "creating the isogeny from {name}");
    let dom = lib!(ctx, iso.domain() == c0.e, "domain");
    let cod = lib!(ctx, iso.codomain() == c1.e, "codomain");
    ensure!(ctx, dom && cod, "the isogeny from {name} has the wrong domain or codomain");
    if rep % 4 != 0 {
        ctx.hit("rescaled representations");
    }
    let mut imgs = vec![];
    let s = r0.add(a, b);
    let n = r0.neg(a);
    for (i, x) in [a, b, &s, &n].into_iter().enumerate() {
        let p = match i {
            2 => {
                let (pa, pb) = (repr(ctx, &c0, a, &r0.g, rep)?, repr(ctx, &c0, b, &r0.g, rep)?);
                lib!(ctx, W::add(0, &pa, &pb), "{a} + {b} on {name}")
            }
            3 => {
                let pa = repr(ctx, &c0, a, &r0.g, rep)?;
                lib!(ctx, W::neg(0, &pa), "-{a}")
            }
            _ => repr(ctx, &c0, x, &r0.g, rep)?,
        };
        let want = iso_image(&co, f, x);
        if r0.is_id(x) {
            ctx.hit("identity");
        } else if want == RP::O {
            ctx.hit("kernel points");
        }
        let got = lib!(ctx, iso.push(p.clone()), "pushing {x} from {name}");
        c1.expect(ctx, &got, &want, || format!("the isogeny image of {x} of {name} (representation {rep}, {})", c0.show(&p)))?;
        let on = lib!(ctx, c1.e.is_on_curve(&got), "is_on_curve");
        ensure!(ctx, on, "the isogeny image of {x} of {name} is not on the codomain");
        ctx.hit("pushes");
        seen_m(ctx, name, "push", x, rep % 4);
        imgs.push(got);
    }
    let sum = lib!(ctx, W::add(0, &imgs[0], &imgs[1]), "sum of images");
    let eq = lib!(ctx, sum == imgs[2] && imgs[2] == sum, "comparison");
    ensure!(ctx, eq, "the images of {a} and {b} of {name} do not sum to the image of the sum");
    let neg = lib!(ctx, W::neg(0, &imgs[0]), "negation");
    let eq = lib!(ctx, neg == imgs[3], "comparison");
    ensure!(ctx, eq, "the image of -{a} of {name} is not the negative of the image");
    ctx.hit("sums");
    Ok(())
}

pub fn c21(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C21",
        "a case is one point of an isogeny's domain, in one internal representation, pushed and compared with the published rational functions (identity, kernel and other low-order points and their pairs, generic points plus low-order components; sums and negatives checked on library values too); distinct = distinct (isogeny, point, representation)",
    );
    pl.must_hit = vec!["pushes", "identity", "sums", "rescaled representations", "kernel points"];
    pl.job("low-order points", 2 * 4, move |ctx| {
        let name = ISO[ctx.case as usize % 2];
        let r0 = crate::named::rc(name);
        let mut t = named_torsion(name);
        t.push(r0.id());
        t.push(r0.g.clone());
        let rep = (ctx.case / 2) as usize;
        for (i, a) in t.iter().enumerate() {
            for (j, b) in t.iter().enumerate() {
                if ctx.thorough || (i + j) % 3 == 0 || i + 2 >= t.len() || j + 2 >= t.len() || i == j {
                    iso_sum(ctx, name, a, b, rep)?;
                }
            }
        }
        Ok(())
    });
    pl.job("mixed points", many(th, 160, 4000), move |ctx| {
        let name = ISO[ctx.case as usize % 2];
        let r0 = crate::named::rc(name);
        let t = named_torsion(name);
        for k in 0..3 {
            let (a, b) = (some_point(&r0, &mut ctx.rng, &t), some_point(&r0, &mut ctx.rng, &t));
            ctx.sample(|| format!("{name} {a} {b}"));
            iso_sum(ctx, name, &a, &b, k + ctx.case as usize)?;
        }
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C26

/// One construction: must succeed, must be refused, or either (then total).
#[derive(PartialEq, Clone, Copy)]
enum Want {
    Accept,
    Refuse,
    Either,
}

fn judge<T>(ctx: &mut Ctx, want: Want, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> R<Option<T>> {
    ctx.stats.evals += 1;
    match (guarded(f), want) {
        (Ok(_), Want::Refuse) => Err(crate::mon::Fail::Violation(format!("{} was accepted although its preconditions do not hold", what()))),
        (Err(e), Want::Accept) => Err(crate::mon::Fail::Violation(format!("{} was refused ({e}) although its preconditions hold", what()))),
        (Ok(v), _) => {
            ctx.hit("accepted");
            Ok(Some(v))
        }
        (Err(_), _) => {
            ctx.hit("refused");
            Ok(None)
        }
    }
}

/// Every u is mapped to a point of the curve, by the reference equation.
fn total<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, m: &dyn MapToCurve<E = C::E>, what: &str, us: &[N]) -> R {
    for u in us {
        let d = c.rc.desc();
        let p = lib!(ctx, m.map(&c.fe(u)), "{what} of u={u} on {d}");
        let on = lib!(ctx, c.e.is_on_curve(&p), "is_on_curve");
        ensure!(ctx, on, "{what} maps u={u} to something which is not on {d}");
    }
    ctx.hits("inputs mapped", us.len() as u64);
    Ok(())
}

fn sswu_want(rc: &RC, z: &N) -> Want {
    if !sswu_need(rc, z) {
        Want::Refuse
    } else if sswu_rfc(rc, z) {
        Want::Accept
    } else {
        Want::Either
    }
}

fn ell2_want(rc: &RC, z: &N) -> Want {
    if rc.a.is_zero() || rc.f.is_square(z) {
        Want::Refuse
    } else if ell2_rfc(rc, z) {
        Want::Accept
    } else {
        Want::Either
    }
}

fn c26_one_w(ctx: &mut Ctx, c: &Crv<W>, z: &N, us: &[N]) -> R {
    let rc = &c.rc;
    let w = sswu_want(rc, z);
    if let Some(m) = judge(ctx, w, &|| format!("SSWU::new({}, Z={z})", rc.desc()), || weierstrass::SSWU::new(c.e.clone(), c.fe(z)))? {
        total::<W>(ctx, c, &m, &format!("SSWU(Z={z})"), us)?;
    }
    let w = if svdw_ok(rc, z) { Want::Accept } else { Want::Refuse };
    if let Some(m) = judge(ctx, w, &|| format!("SVDW::new({}, Z={z})", rc.desc()), || weierstrass::SVDW::new(c.e.clone(), c.fe(z)))? {
        total::<W>(ctx, c, &m, &format!("SvdW(Z={z})"), us)?;
    }
    seen_u(ctx, rc, z, &N::zero());
    Ok(())
}

fn c26_one_m(ctx: &mut Ctx, c: &Crv<M>, z: &N, us: &[N]) -> R {
    let rc = &c.rc;
    let w = ell2_want(rc, z);
    if let Some(m) = judge(ctx, w, &|| format!("montgomery::Ell2::new({}, Z={z})", rc.desc()), || montgomery::Ell2::new(c.e.clone(), c.fe(z)))? {
        total::<M>(ctx, c, &m, &format!("Elligator2(Z={z})"), us)?;
    }
    seen_u(ctx, rc, z, &N::one());
    Ok(())
}

/// Z values at the edges of the preconditions.
fn edge_zs(ctx: &mut Ctx, f: &F) -> Vec<N> {
    let mut v: Vec<N> = [0i64, 1, -1, 2, -2, 3, -3, 4, 5, -5, -10, 11, -11].iter().map(|k| f.small(*k)).collect();
    for _ in 0..4 {
        v.push(gen::elt(&mut ctx.rng, &f.p));
    }
    v
}

/// The same equation with another order, cofactor or base point.
fn nearly(ctx: &mut Ctx, rc: &RC) -> RC {
    let mut o = rc.clone();
    match ctx.rng.below(3) {
        0 => o.r = &rc.r + 2u32,
        1 => o.h = &rc.h + 1u32,
        _ => o.g = rc.neg(&rc.g),
    }
    o
}

pub fn c26(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C26",
        "a case is one construction of a map, judged accept/refuse by the reference preconditions, followed by mapping inputs when it was accepted (every (A,B,Z) over tiny fields with every u; edge and random parameters on named and random curves; companion curves and rational maps that do or do not match); distinct = distinct (curve, Z, map family)",
    );
    pl.must_hit = vec!["accepted", "refused", "inputs mapped", "companion matches", "companion mismatches", "nearly the companion"];
    let mut t = vec![];
    for p in supported_primes(5, sz(th, 19, 43)) {
        for a in 0..p {
            t.push((p, a));
        }
    }
    let n = t.len() as u64;
    pl.job("tiny curves, every A, B and Z", n, move |ctx| {
        let (p, a) = t[ctx.case as usize];
        let pn = big(p);
        let us: Vec<N> = (0..p).map(big).collect();
        let step = if p <= 13 || ctx.thorough { 1 } else { 3 };
        let mut b = 0;
        while b < p {
            if let Some(rc) = curve_ab(Kind::W, &pn, &big(a), &big(b), &N::zero()) {
                let c = Crv::<W>::new(ctx, &rc)?;
                for z in 0..p {
                    c26_one_w(ctx, &c, &big(z), &us)?;
                }
            }
            if let Some(rc) = curve_ab(Kind::M, &pn, &big(a), &big(b), &N::one()) {
                let c = Crv::<M>::new(ctx, &rc)?;
                for z in 0..p {
                    c26_one_m(ctx, &c, &big(z), &us)?;
                }
            }
            b += step;
        }
        Ok(())
    });
    let (nw, nm) = (named_rcs(Kind::W), named_rcs(Kind::M));
    pl.job("large curves, Weierstrass maps", many(th, 60, 2500), move |ctx| {
        let (rc, _) = mixed_curve(ctx, Kind::W, &nw);
        if !sqrt_ok(m16(&rc.f.p)) {
            return Ok(());
        }
        ctx.sample(|| rc.desc());
        let c = Crv::<W>::new(ctx, &rc)?;
        for z in edge_zs(ctx, &rc.f) {
            let mut us = some_us(ctx, &rc.f, 1);
            us.extend(us_with(&rc.f, &z, &rc.f.small(-1)).into_iter().take(if z.is_zero() { 0 } else { 1 }));
            us.push(N::zero());
            c26_one_w(ctx, &c, &z, &us)?;
        }
        Ok(())
    });
    pl.job("large curves, Montgomery maps", many(th, 60, 2500), move |ctx| {
        let (rc, _) = mixed_curve(ctx, Kind::M, &nm);
        if !sqrt_ok(m16(&rc.f.p)) {
            return Ok(());
        }
        let c = Crv::<M>::new(ctx, &rc)?;
        for z in edge_zs(ctx, &rc.f) {
            let mut us = some_us(ctx, &rc.f, 1);
            us.push(N::zero());
            c26_one_m(ctx, &c, &z, &us)?;
        }
        Ok(())
    });
    pl.job("companions of library maps", many(th, 2, 8), move |ctx| {
        // SSWUAB0 needs the codomain of its isogeny
        for name in ISO {
            let z = crate::named::rc(name).f.small(if name == "secp256k1_3iso" { -11 } else { 11 });
            for w in named_rcs(Kind::W) {
                let c = Crv::<W>::new(ctx, &w)?;
                let r0 = crate::named::rc(name);
                let c0 = Crv::<W>::new(ctx, &r0)?;
                let ok = w.name == iso_target(name);
                let want = if ok { Want::Accept } else { Want::Refuse };
                let m = judge(ctx, want, &|| format!("SSWUAB0::new({}, Z={z}, isogeny from {name})", w.name), || {
                    weierstrass::SSWUAB0::new(c.e.clone(), c0.fe(&z), lib_iso(name))
                })?;
                if let Some(m) = m {
                    let us = some_us(ctx, &w.f, 3);
                    total::<W>(ctx, &c, &m, "SSWUAB0", &us)?;
                    ctx.hit("companion matches");
                } else {
                    ctx.hit("companion mismatches");
                }
                ctx.seen(&[name.as_bytes(), w.name.as_bytes()]);
            }
            // curves which are nearly the codomain
            let w = crate::named::rc(iso_target(name));
            let c0 = Crv::<W>::new(ctx, &crate::named::rc(name))?;
            for o in super::misc::variants(ctx, &w) {
                let c = Crv::<W>::new(ctx, &o)?;
                judge(ctx, Want::Refuse, &|| format!("SSWUAB0::new({}, Z={z}, isogeny from {name} to {})", o.desc(), w.desc()), || {
                    weierstrass::SSWUAB0::new(c.e.clone(), c0.fe(&z), lib_iso(name))
                })?;
                ctx.hit("nearly the companion");
            }
            // unsuitable Z
            let (c, c0) = (Crv::<W>::new(ctx, &w)?, Crv::<W>::new(ctx, &crate::named::rc(name))?);
            for z in edge_zs(ctx, &w.f) {
                let want = sswu_want(&c0.rc, &z);
                let m = judge(ctx, want, &|| format!("SSWUAB0::new({}, Z={z})", w.name), || {
                    weierstrass::SSWUAB0::new(c.e.clone(), c0.fe(&z), lib_iso(name))
                })?;
                if let Some(m) = m {
                    total::<W>(ctx, &c, &m, "SSWUAB0", &[N::zero(), N::one()])?;
                }
            }
        }
        for rat in rats() {
            let rm = crate::named::rc(rat.mt);
            let cm = Crv::<M>::new(ctx, &rm)?;
            let z = nonsquare(ctx, &rm.f);
            let re = crate::named::rc(rat.ed);
            for o in super::misc::variants(ctx, &re) {
                let c = Crv::<E>::new(ctx, &o)?;
                judge(ctx, Want::Refuse, &|| format!("edwards::Ell2::new({}, Z={z}, {} map)", o.desc(), rat.name), || {
                    edwards::Ell2::new(c.e.clone(), cm.fe(&z), Some(rat.lib()))
                })?;
                ctx.hit("nearly the companion");
            }
            for e in named_rcs(Kind::E) {
                let c = Crv::<E>::new(ctx, &e)?;
                for z in edge_zs(ctx, &rm.f) {
                    let want = if e.name != rat.ed { Want::Refuse } else { ell2_want(&rm, &z) };
                    let m = judge(ctx, want, &|| format!("edwards::Ell2::new({}, Z={z}, {} map)", e.name, rat.name), || {
                        edwards::Ell2::new(c.e.clone(), cm.fe(&z), Some(rat.lib()))
                    })?;
                    if let Some(m) = m {
                        let mut us = some_us(ctx, &e.f, 1);
                        us.push(N::zero());
                        total::<E>(ctx, &c, &m, "Elligator2", &us)?;
                        ctx.hit("companion matches");
                    } else {
                        ctx.hit("companion mismatches");
                    }
                    ctx.seen(&[rat.name.as_bytes(), e.name.as_bytes(), &z.to_bytes_le()]);
                }
            }
        }
        Ok(())
    });
    pl.job("companions of user-supplied maps", many(th, 200, 4000), move |ctx| {
        let ps = supported_primes(7, 31);
        let p = big(*ctx.rng.pick(&ps));
        let f = F::new(&p);
        let us: Vec<N> = (0..p.to_u64_digits()[0]).map(big).collect();
        let any = |ctx: &mut Ctx, kind: Kind, f: &F| -> RC {
            loop {
                let k = ctx.rng.below(4);
                let a = if k == 0 { N::zero() } else { gen::elt(&mut ctx.rng, &f.p) };
                let b = if k == 1 { N::zero() } else { gen::elt(&mut ctx.rng, &f.p) };
                let s = if kind == Kind::M { N::one() } else { N::zero() };
                if let Some(rc) = curve_ab(kind, &f.p, &a, &b, &s) {
                    return rc;
                }
            }
        };
        // isogenous SSWU
        let (r0, r1, r2) = (any(ctx, Kind::W, &f), any(ctx, Kind::W, &f), any(ctx, Kind::W, &f));
        let (c0, c1, c2) = (Crv::<W>::new(ctx, &r0)?, Crv::<W>::new(ctx, &r1)?, Crv::<W>::new(ctx, &r2)?);
        let r3 = nearly(ctx, &r1);
        let c3 = Crv::<W>::new(ctx, &r3)?;
        for z in us.iter() {
            for (e, re) in [(&c1, &r1), (&c2, &r2), (&c3, &r3)] {
                let iso = RecIso { dom: c0.e.clone(), cod: c1.e.clone(), answer: c1.e.get_generator(), log: Rc::new(RefCell::new(vec![])) };
                let same = (&re.a, &re.b, &re.g, &re.r, &re.h) == (&r1.a, &r1.b, &r1.g, &r1.r, &r1.h);
                let one = re.a.is_zero() != re.b.is_zero();
                let want = if !same || !one { Want::Refuse } else { sswu_want(&r0, z) };
                let m = judge(ctx, want, &|| format!("SSWUAB0::new({}, Z={z}, user isogeny {} -> {})", re.desc(), r0.desc(), r1.desc()), || {
                    weierstrass::SSWUAB0::new(e.e.clone(), c0.fe(z), Box::new(iso))
                })?;
                if let Some(m) = m {
                    total::<W>(ctx, &c1, &m, "SSWUAB0", &us)?;
                    ctx.hit("companion matches");
                } else if !same {
                    ctx.hit("companion mismatches");
                }
                seen_u(ctx, re, z, &r0.a);
            }
        }
        // Edwards Elligator 2
        let rm = any(ctx, Kind::M, &f);
        let (r1, r2) = (any(ctx, Kind::E, &f), any(ctx, Kind::E, &f));
        let cm = Crv::<M>::new(ctx, &rm)?;
        let (c1, c2) = (Crv::<E>::new(ctx, &r1)?, Crv::<E>::new(ctx, &r2)?);
        let r3 = nearly(ctx, &r1);
        let c3 = Crv::<E>::new(ctx, &r3)?;
        for z in us.iter() {
            for (e, re) in [(&c1, &r1), (&c2, &r2), (&c3, &r3)] {
                let rat = RecRat { dom: c1.e.clone(), cod: cm.e.clone(), answer: c1.e.get_generator(), log: Rc::new(RefCell::new(vec![])) };
                let same = (&re.a, &re.b, &re.g, &re.r, &re.h) == (&r1.a, &r1.b, &r1.g, &r1.r, &r1.h);
                let want = if !same { Want::Refuse } else { ell2_want(&rm, z) };
                let m = judge(ctx, want, &|| format!("edwards::Ell2::new({}, Z={z}, user map {} -> {})", re.desc(), r1.desc(), rm.desc()), || {
                    edwards::Ell2::new(e.e.clone(), cm.fe(z), Some(Box::new(rat)))
                })?;
                if let Some(m) = m {
                    total::<E>(ctx, &c1, &m, "Elligator2", &us)?;
                    ctx.hit("companion matches");
                } else if !same {
                    ctx.hit("companion mismatches");
                }
                seen_u(ctx, re, z, &rm.a);
            }
        }
        Ok(())
    });
    pl
}
