//! C32: a refused or failed operation leaves no lasting effect. Histories mix
//! attempts which the library refuses (whatever comes of them is ignored here)
//! with supported operations on the same handles, operands and maps, which must
//! answer as if the attempts had never been made.
use super::curves::{decode_check, encode_check, law_pair, mul_check, scalar_full, scalar_ops};
use super::fields::{self, conv_case, fp2_case, fp2_pow, fp2_sqrt, fp2_unary, group_case, is_fp, is_fp2, mk2, pow_case, ring_ops, sqrt_case, sqrt_ok, G, N2};
use super::maps::{self, iso_image, iso_target, lib_iso, rats, ISO};
use super::misc::variants;
use super::many;
use crate::cut::*;
use crate::gen::{self, Rng};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EllipticCurve, Isogeny, MapToCurve, RationalMap};
use redox_ecc::field::{Field, Sqrt};
use redox_ecc::ops::{Deserialize, FromFactory};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::cell::Cell;
use std::rc::Rc;

fn m16(p: &N) -> u32 {
    (p % 16u32).to_u32_digits().first().copied().unwrap_or(0)
}

/// An attempt; whether it is refused is not judged here, but it must not depend on
/// having been tried before.
fn attempt<T>(ctx: &mut Ctx, f: impl Fn() -> T) {
    let refused = guarded(&f).is_err();
    ctx.hit(if refused { "attempts refused" } else { "attempts answered" });
    if ctx.rng.one_in(3) {
        let n = 1 + ctx.rng.below(2);
        for _ in 0..n {
            if guarded(&f).is_err() != refused {
                TURNED.with(|t| t.set(true));
            }
            ctx.hit("attempts repeated");
        }
    }
}

fn once<T>(ctx: &mut Ctx, f: impl FnOnce() -> T) {
    match guarded(f) {
        Err(_) => ctx.hit("attempts refused"),
        Ok(_) => ctx.hit("attempts answered"),
    }
}

thread_local! {
    /// an attempt was refused once and answered once
    static TURNED: Cell<bool> = const { Cell::new(false) };
}

fn steady(ctx: &mut Ctx, what: &str) -> R {
    let t = TURNED.with(|t| t.replace(false));
    ctx.check(!t, || format!("{what}: an attempt was refused and the same attempt, repeated, was answered, or the other way round"))
}

macro_rules! mixed {
    ($ctx:expr, $k:expr, $x:expr, $y:expr) => {{
        let (x, y) = ($x, $y);
        match $k % 12 {
            0 => attempt($ctx, || x + y),
            1 => attempt($ctx, || x - y),
            2 => attempt($ctx, || x * y),
            3 => attempt($ctx, || x / y),
            4 => attempt($ctx, || x.clone() + y),
            5 => attempt($ctx, || x.clone() - y),
            6 => attempt($ctx, || x.clone() * y),
            7 => attempt($ctx, || x.clone() / y),
            8 => attempt($ctx, || x + y.clone()),
            9 => attempt($ctx, || x.clone() - y.clone()),
            10 => attempt($ctx, || x * y.clone()),
            _ => attempt($ctx, || x.clone() / y.clone()),
        }
    }};
}

const JUNK: [&str; 16] = [
    "zz", "0x", "-", "--1", "1 2", "0b12", "0o9", "x", "0xg1", "1.5", "-0x-1", "+-3", " 7", "1_", "i", "\u{e9}1",
];
const JUNK2: [&str; 12] = ["", "5", "1;2", "1,", ",1", "1,2,3", "zz,1", "1,zz", "0x,1", "-,1", "1,--1", "i*b"];

// ------------------------------------------------------------------ fields

struct Pool<H, E, V, M> {
    f: H,
    m: M,
    v: Vec<(E, V)>,
}

fn spoil_fp(ctx: &mut Ctx, a: &Pool<Fp, FpElt, N, F>, b: &Pool<Fp, FpElt, N, F>) {
    let x = ctx.rng.pick(&a.v).0.clone();
    let y = ctx.rng.pick(&b.v).0.clone();
    match ctx.rng.below(9) {
        0..=2 => {
            let k = ctx.rng.below(12);
            if ctx.rng.bool() {
                mixed!(ctx, k, &x, &y)
            } else {
                mixed!(ctx, k, &y, &x)
            }
        }
        3 => {
            let n = *ctx.rng.pick(&[0u32, 1, 3, 7, u32::MAX]);
            attempt(ctx, || &x ^ n)
        }
        4 => {
            let n = *ctx.rng.pick(&[0i32, 1, 2, -2, i32::MIN]);
            attempt(ctx, || x.clone() ^ n)
        }
        5 => {
            let n = *ctx.rng.pick(&[0u32, 2, 5, u32::MAX]);
            attempt(ctx, || n / &x)
        }
        6 => {
            let s = *ctx.rng.pick(&JUNK);
            attempt(ctx, || FromFactory::from(&a.f, s))
        }
        7 => {
            if ctx.rng.bool() {
                attempt(ctx, <FpElt as Zero>::zero)
            } else {
                attempt(ctx, <FpElt as One>::one)
            }
        }
        _ => {
            // refused where p = 1 mod 8; elsewhere the root of something
            let which = if sqrt_ok(m16(&b.m.p)) { &x } else { &y };
            attempt(ctx, || which.sqrt())
        }
    }
}

fn fp_history(ctx: &mut Ctx) -> R {
    let p = fields::big_prime(ctx, 300, |_| true);
    let q = match ctx.rng.below(3) {
        0 => gen::near_prime(&mut ctx.rng, &p, |_| true).unwrap_or_else(|| gen::big(7)),
        // roots are not supported there
        1 => {
            let bits = 8 + ctx.rng.below(120);
            gen::rand_prime(&mut ctx.rng, bits, |m| m % 8 == 1)
        }
        _ => fields::big_prime(ctx, 300, |_| true),
    };
    if p == q {
        return Ok(());
    }
    let mut pools = vec![];
    for n in [&p, &q] {
        let (f, m) = (lib!(ctx, Fp::new(n.clone()), "Fp::new"), F::new(n));
        let mut v = vec![];
        for _ in 0..3 {
            let a = gen::elt(&mut ctx.rng, n);
            v.push((lib!(ctx, f.elt(bi(&a)), "elt"), a));
        }
        for a in [N::zero(), N::one(), n - 1u32] {
            v.push((lib!(ctx, f.elt(bi(&a)), "elt"), a));
        }
        pools.push(Pool { f, m, v });
    }
    for _ in 0..10 {
        let n = 1 + ctx.rng.below(4);
        for _ in 0..n {
            let (i, j) = if ctx.rng.bool() { (0, 1) } else { (1, 0) };
            spoil_fp(ctx, &pools[i], &pools[j]);
        }
        steady(ctx, "prime fields")?;
        for pl in &pools {
            let (x, a) = ctx.rng.pick(&pl.v).clone();
            let (y, b) = ctx.rng.pick(&pl.v).clone();
            is_fp(ctx, &pl.f, &pl.m, &x, &a, || "an operand of refused operations".to_string())?;
            let k = ctx.rng.below(4);
            ring_ops(ctx, &pl.f, &pl.m, &x, &y, &a, &b, k)?;
            match ctx.rng.below(4) {
                0 => group_case(ctx, &pl.f, &pl.m, &a, &b, k)?,
                1 => {
                    let e = if ctx.rng.bool() { bi(&b) } else { -bi(&b) };
                    pow_case(ctx, &pl.f, &pl.m, &a, &e)?
                }
                2 => conv_case(ctx, &pl.f, &pl.m, &-bi(&b))?,
                _ => {
                    if sqrt_ok(m16(&pl.m.p)) {
                        let a = if ctx.rng.bool() { pl.m.sqr(&a) } else { a };
                        sqrt_case(ctx, &pl.f, &pl.m, &a, k)?;
                        ctx.hit("roots after refusals");
                    }
                }
            }
            ctx.hit("fields after refusals");
        }
    }
    Ok(())
}

fn fp2_history(ctx: &mut Ctx) -> R {
    let p = fields::big_prime(ctx, 200, |m| m % 4 == 3);
    let q = match ctx.rng.below(3) {
        0 => gen::near_prime(&mut ctx.rng, &p, |m| m % 4 == 3).unwrap_or_else(|| gen::big(7)),
        // neither a field by i nor any roots
        1 => {
            let bits = 8 + ctx.rng.below(120);
            gen::rand_prime(&mut ctx.rng, bits, |m| m % 4 == 1)
        }
        _ => fields::big_prime(ctx, 200, |m| m % 4 == 3),
    };
    if p == q {
        return Ok(());
    }
    let mut pools = vec![];
    for n in [&p, &q] {
        let (f, g) = (lib!(ctx, Fp2::new(n.clone()), "Fp2::new"), G(F::new(n)));
        let mut v: Vec<(Fp2Elt, N2)> = vec![];
        for _ in 0..3 {
            let u = fields::elt2(&mut ctx.rng, n);
            v.push((mk2(ctx, &f, &u)?, u));
        }
        for u in [(N::zero(), N::zero()), (N::one(), N::zero()), (N::zero(), N::one())] {
            v.push((mk2(ctx, &f, &u)?, u));
        }
        pools.push(Pool { f, m: g, v });
    }
    for _ in 0..8 {
        let n = 1 + ctx.rng.below(4);
        for _ in 0..n {
            let (i, j) = if ctx.rng.bool() { (0, 1) } else { (1, 0) };
            let (a, b) = (&pools[i], &pools[j]);
            let x = ctx.rng.pick(&a.v).0.clone();
            let y = ctx.rng.pick(&b.v).0.clone();
            match ctx.rng.below(8) {
                0..=2 => {
                    let k = ctx.rng.below(12);
                    mixed!(ctx, k, &x, &y)
                }
                3 => {
                    let n = *ctx.rng.pick(&[0u32, 1, 3, u32::MAX]);
                    attempt(ctx, || &x ^ n)
                }
                4 => {
                    let n = *ctx.rng.pick(&[0u32, 2, 9, u32::MAX]);
                    attempt(ctx, || n / &x)
                }
                5 => {
                    let s = *ctx.rng.pick(&JUNK2);
                    attempt(ctx, || FromFactory::from(&a.f, s))
                }
                6 => {
                    let size = 2 * a.m.0.size();
                    let n = *ctx.rng.pick(&[0, 1, size - 1, size + 1, size / 2, 2 * size]);
                    let w = ctx.rng.bytes(n);
                    if ctx.rng.bool() {
                        attempt(ctx, || a.f.from_bytes_be(&w))
                    } else {
                        attempt(ctx, || a.f.from_bytes_le(&w))
                    }
                }
                _ => {
                    let z = if pools[1].m.0.p.bit(1) { x } else { pools[1].v[0].0.clone() };
                    attempt(ctx, || z.sqrt())
                }
            }
        }
        steady(ctx, "extensions")?;
        for pl in &pools {
            if !pl.m.0.p.bit(1) {
                continue;
            }
            let (x, u) = ctx.rng.pick(&pl.v).clone();
            let (_, v) = ctx.rng.pick(&pl.v).clone();
            is_fp2(ctx, &pl.f, &pl.m, &x, &u, || "an operand of refused operations".to_string())?;
            let k = ctx.rng.below(4);
            fp2_case(ctx, &pl.f, &pl.m, &u, &v, k)?;
            match ctx.rng.below(3) {
                0 => fp2_unary(ctx, &pl.f, &pl.m, &u, k)?,
                1 => fp2_pow(ctx, &pl.f, &pl.m, &u, &bi(&(&v.0 % 65536u32)))?,
                _ => {
                    let u = if ctx.rng.bool() { pl.m.mul(&u, &u) } else { u };
                    fp2_sqrt(ctx, &pl.f, &pl.m, &u, k)?;
                    ctx.hit("roots after refusals");
                }
            }
            ctx.hit("extensions after refusals");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ curves

/// Octet strings which should not decode, and some which might.
fn junk_bytes(rng: &mut Rng, rc: &RC) -> Vec<u8> {
    let mut b = rc.encode(&rand_point(rc, rng), rng.bool());
    match rng.below(7) {
        0 => vec![],
        1 => {
            b.pop();
            b
        }
        2 => {
            b.push(0);
            b
        }
        3 => {
            if !b.is_empty() {
                b[0] ^= 1 << rng.below(8);
            }
            b
        }
        4 => {
            let n = b.len().max(1);
            let i = rng.below(n);
            if i < b.len() {
                b[i] ^= 1 << rng.below(8);
            }
            b
        }
        5 => vec![0xff; b.len()],
        _ => {
            let n = rng.below(2 * b.len() + 2);
            rng.bytes(n)
        }
    }
}

struct Held<C: Cut> {
    c: Crv<C>,
    pts: Vec<(C::P, RP)>,
}

fn spoil_curve<C: Cut>(ctx: &mut Ctx, a: &Held<C>, b: &Held<C>) -> R {
    let (p, q) = (ctx.rng.pick(&a.pts).0.clone(), ctx.rng.pick(&b.pts).0.clone());
    let form = ctx.rng.below(28);
    match ctx.rng.below(12) {
        0 => attempt(ctx, || C::add(form, &p, &q)),
        1 => attempt(ctx, || C::sub(form, &p, &q)),
        2 => {
            let r = &b.c.rc.r + ctx.rng.below(2) as u32;
            let k: BigInt = bi(&gen::elt(&mut ctx.rng, &b.c.rc.r)) >> 3;
            attempt(ctx, || C::mul(form, &p, &C::snew(k.clone(), &r)))
        }
        3 => {
            // off the curve, or with foreign coordinates
            let (x, y) = match ctx.rng.pick(&a.pts).1.clone() {
                RP::A(x, _) if form & 1 == 1 => (x, gen::elt(&mut ctx.rng, &a.c.rc.f.p)),
                RP::A(_, y) if form & 2 == 2 => (gen::elt(&mut ctx.rng, &a.c.rc.f.p), y),
                _ => (gen::elt(&mut ctx.rng, &a.c.rc.f.p), gen::elt(&mut ctx.rng, &a.c.rc.f.p)),
            };
            attempt(ctx, || a.c.e.new_point(a.c.fe(&x), a.c.fe(&y)))
        }
        4 => {
            if let RP::A(x, y) = &b.c.rc.g {
                attempt(ctx, || a.c.e.new_point(b.c.fe(x), if form & 1 == 1 { b.c.fe(y) } else { a.c.fe(y) }))
            }
        }
        5..=7 => {
            let w = junk_bytes(&mut ctx.rng, &a.c.rc);
            attempt(ctx, || a.c.e.decode(&w).ok())
        }
        8 => {
            let (r, s) = (a.c.rc.r.clone(), b.c.rc.r.clone() + 2u32);
            let k = bi(&gen::elt(&mut ctx.rng, &r));
            attempt(ctx, || match form % 4 {
                0 => C::sadd(form, &C::snew(k.clone(), &r), &C::snew(k.clone(), &s)),
                1 => C::ssub(form, &C::snew(k.clone(), &r), &C::snew(k.clone(), &s)),
                2 => C::smul(form, &C::snew(k.clone(), &r), &C::snew(k.clone(), &s)),
                _ => C::sdiv(form, &C::snew(k.clone(), &r), &C::snew(k.clone(), &s)),
            })
        }
        9 => {
            let n = *ctx.rng.pick(&[0u32, 2, 3, u32::MAX]);
            let s = a.c.scalar(ctx, &BigInt::one())?;
            attempt(ctx, || C::sinv(n, &s))
        }
        10 => {
            // a base point which is not on the curve
            let mut sp = Spelling::of(&a.c.rc);
            sp.gy = "3";
            attempt(ctx, || C::spelled(&sp).get_generator())
        }
        _ => {
            // malformed parameters
            let mut sp = Spelling::of(&a.c.rc);
            let junk = *ctx.rng.pick(&JUNK);
            match form % 6 {
                0 => sp.p = junk,
                1 => sp.a = junk,
                2 => sp.b = junk,
                3 => sp.r = junk,
                4 => sp.h = junk,
                _ => sp.gx = junk,
            }
            attempt(ctx, || C::spelled(&sp).get_generator())
        }
    }
    Ok(())
}

fn curve_history<C: Cut>(ctx: &mut Ctx, named: &[RC]) -> R {
    let rc = if ctx.case % 5 == 0 {
        named[(ctx.case / 5) as usize % named.len()].clone()
    } else {
        let bits = 5 + ctx.rng.below(220);
        let p = gen::rand_prime(&mut ctx.rng, bits, |_| true);
        random_curve(C::KIND, &p, &mut ctx.rng)
    };
    let vs: Vec<RC> = variants(ctx, &rc).into_iter().filter(|o| law_applies(o.kind, &o.f, &o.a, &o.b, &o.s)).collect();
    let mut rcs = vec![rc.clone()];
    if !vs.is_empty() {
        rcs.push(ctx.rng.pick(&vs).clone());
    } else {
        return Ok(());
    }
    let mut held: Vec<Held<C>> = vec![];
    for o in &rcs {
        let c = Crv::<C>::new(ctx, o)?;
        let mut pts = vec![];
        for rp in [o.g.clone(), o.id(), rand_point(o, &mut ctx.rng), rand_point(o, &mut ctx.rng)] {
            pts.push((c.pt(ctx, &rp)?, rp));
        }
        held.push(Held { c, pts });
    }
    let long = rc.f.p.bits() > 200;
    ctx.sample(|| format!("{} and {}", rcs[0].desc(), rcs[1].desc()));
    for _ in 0..6 {
        let n = 1 + ctx.rng.below(4);
        for _ in 0..n {
            let (i, j) = if ctx.rng.bool() { (0, 1) } else { (1, 0) };
            spoil_curve(ctx, &held[i], &held[j])?;
        }
        steady(ctx, &rcs[0].desc())?;
        let h = &held[if ctx.rng.one_in(4) { 1 } else { 0 }];
        let c = &h.c;
        let (p, rp) = ctx.rng.pick(&h.pts).clone();
        let (q, rq) = ctx.rng.pick(&h.pts).clone();
        c.expect(ctx, &p, &rp, || format!("{rp}, after refused operations with it,"))?;
        let form = ctx.rng.below(28);
        law_pair(ctx, c, &p, &rp, &q, &rq, form % 4)?;
        match ctx.rng.below(4) {
            0 => {
                let top = if long { gen::big(1 << 24) } else { c.rc.r.clone() };
                let k = bi(&gen::elt(&mut ctx.rng, &top));
                mul_check(ctx, c, &p, &rp, &k, form % 7)?;
            }
            1 => {
                let can = sqrt_ok(m16(&c.rc.f.p));
                encode_check(ctx, c, &p, &rp, "after refusals", can)?;
                if can {
                    let b = c.rc.encode(&rq, form & 2 == 2);
                    decode_check(ctx, c, &b)?;
                    let b = junk_bytes(&mut ctx.rng, &c.rc);
                    decode_check(ctx, c, &b)?;
                    decode_check(ctx, c, &b)?;
                    ctx.hit("decodings after refusals");
                }
            }
            2 => {
                let (a, b) = (bi(&gen::elt(&mut ctx.rng, &c.rc.r)), bi(&gen::elt(&mut ctx.rng, &c.rc.r)));
                if gen::is_prime(&c.rc.r) {
                    scalar_ops::<C>(ctx, &c.rc.r, &a, &b, form % 4)?;
                }
                let s = c.scalar(ctx, &a)?;
                scalar_full::<C>(ctx, &s, &F::new(&c.rc.r).lift(&a), &c.rc.r)?;
            }
            _ => {
                let g = lib!(ctx, c.e.get_generator(), "get_generator of {}", c.rc.desc());
                c.expect(ctx, &g, &c.rc.g, || "get_generator after refusals".to_string())?;
                let ok = lib!(
                    ctx,
                    c.e.is_on_curve(&g) && c.e.is_on_curve(&p) && c.e.get_order() == c.rc.r && c.e.get_cofactor() == bi(&c.rc.h) && c.e == c.e.clone() && held[0].c.e != held[1].c.e,
                    "observing {} after refusals",
                    c.rc.desc()
                );
                ensure!(ctx, ok, "{} reports something else after refused operations", c.rc.desc());
            }
        }
        ctx.seen(&[c.rc.desc().as_bytes(), rp.to_string().as_bytes(), rq.to_string().as_bytes()]);
        ctx.hit("curves after refusals");
    }
    Ok(())
}

// ------------------------------------------------------------------ maps

/// What the callbacks of user-supplied maps do: panic while the fuse is lit.
#[derive(Clone)]
struct Fuse(Rc<Cell<u32>>);

impl Fuse {
    fn new() -> Fuse {
        Fuse(Rc::new(Cell::new(0)))
    }
    /// the n-th call from now on panics (0: none does)
    fn light(&self, n: u32) {
        self.0.set(n)
    }
    fn call(&self) {
        match self.0.get() {
            0 => {}
            1 => {
                self.0.set(0);
                panic!("the map supplied by the user failed")
            }
            n => self.0.set(n - 1),
        }
    }
}

struct FlakyIso(Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>>, Fuse);

impl Isogeny for FlakyIso {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> Self::E0 {
        self.1.call();
        self.0.domain()
    }
    fn codomain(&self) -> Self::E1 {
        self.1.call();
        self.0.codomain()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        self.1.call();
        self.0.push(p)
    }
}

struct FlakyRat(Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>, Fuse);

impl RationalMap for FlakyRat {
    type E0 = edwards::Curve;
    type E1 = montgomery::Curve;
    fn domain(&self) -> Self::E0 {
        self.1.call();
        self.0.domain()
    }
    fn codomain(&self) -> Self::E1 {
        self.1.call();
        self.0.codomain()
    }
    fn push(&self, p: edwards::Point) -> montgomery::Point {
        self.1.call();
        self.0.push(p)
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        self.1.call();
        self.0.pull(p)
    }
}

/// One map through a history of attempts. `spoil` makes one attempt with the map's
/// handles; `want` is the reference.
fn map_history<C: Cut>(
    ctx: &mut Ctx,
    name: &str,
    c: &Crv<C>,
    make: &dyn Fn() -> Box<dyn MapToCurve<E = C::E>>,
    spoil: &dyn Fn(&mut Ctx),
    fuse: Option<&Fuse>,
    want: &dyn Fn(&N) -> RP,
) -> R {
    let p = &c.rc.f.p;
    let d = c.rc.desc();
    for _ in 0..2 {
        spoil(ctx);
    }
    if let Some(fuse) = fuse {
        // its callbacks fail while the map is being built
        fuse.light(1 + ctx.rng.below(3) as u32);
        once(ctx, make);
        fuse.light(0);
    }
    let mut m = lib!(ctx, make(), "{name} on {d} after refused attempts");
    let q = gen::near_prime(&mut ctx.rng, p, |_| true).unwrap_or_else(|| gen::big(1009));
    let foreign = lib!(ctx, Fp::new(q.clone()), "Fp::new");
    let mut us = vec![gen::elt(&mut ctx.rng, p), gen::elt(&mut ctx.rng, p), N::zero(), N::one()];
    for i in 0..6 {
        let n = 1 + ctx.rng.below(2);
        for _ in 0..n {
            let k = bi(ctx.rng.pick(&us));
            match ctx.rng.below(3) {
                0 => spoil(ctx),
                1 => attempt(ctx, || m.map(&foreign.elt(k.clone()))),
                _ => {
                    if let Some(fuse) = fuse {
                        fuse.light(1);
                        let u = c.fe(ctx.rng.pick(&us));
                        once(ctx, || m.map(&u));
                        fuse.light(0);
                        ctx.hit("failing callbacks");
                    } else {
                        spoil(ctx)
                    }
                }
            }
        }
        if i == 3 {
            // another instance from the same parts
            m = lib!(ctx, make(), "{name} on {d} after refused attempts");
            us.push(gen::elt(&mut ctx.rng, p));
        }
        steady(ctx, name)?;
        let u = ctx.rng.pick(&us).clone();
        let got = lib!(ctx, m.map(&c.fe(&u)), "{name} of u={u} on {d} after refused attempts");
        c.expect(ctx, &got, &want(&u), || format!("{name} of u={u}, after refused attempts,"))?;
        ctx.seen(&[name.as_bytes(), d.as_bytes(), &u.to_bytes_le()]);
        ctx.hit("maps after refusals");
    }
    Ok(())
}

fn maps_history(ctx: &mut Ctx) -> R {
    type W0 = Box<dyn MapToCurve<E = weierstrass::Curve>>;
    type M0 = Box<dyn MapToCurve<E = montgomery::Curve>>;
    type E0 = Box<dyn MapToCurve<E = edwards::Curve>>;
    let bits = 6 + ctx.rng.below(200);
    let p = gen::rand_prime(&mut ctx.rng, bits, sqrt_ok);
    let first = |f: &F, ok: &dyn Fn(&N) -> bool| maps::first_z(f, ok);
    match ctx.case % 6 {
        0 | 1 => {
            let rc = random_curve(Kind::W, &p, &mut ctx.rng);
            let c = Crv::<W>::new(ctx, &rc)?;
            let spoil = |ctx: &mut Ctx| {
                let z = c.fe(&gen::elt(&mut ctx.rng, &rc.f.p));
                match ctx.rng.below(5) {
                    0 => attempt(ctx, || weierstrass::SSWU::new(c.e.clone(), &z * &z)),
                    1 => attempt(ctx, || weierstrass::SVDW::new(c.e.clone(), c.fe(&N::zero()))),
                    2 => attempt(ctx, || weierstrass::SVDW::new(c.e.clone(), z.clone())),
                    3 => attempt(ctx, || weierstrass::SSWUAB0::new(c.e.clone(), z.clone(), lib_iso(ISO[0]))),
                    _ => attempt(ctx, || weierstrass::SSWU::new(c.e.clone(), -c.f.one())),
                }
            };
            if ctx.case % 6 == 0 {
                if rc.a.is_zero() || rc.b.is_zero() {
                    return Ok(());
                }
                let Some(z) = first(&rc.f, &|z| maps::sswu_rfc(&rc, z)) else { return Ok(()) };
                map_history::<W>(ctx, "SSWU", &c, &|| Box::new(weierstrass::SSWU::new(c.e.clone(), c.fe(&z))) as W0, &spoil, None, &|u| rc.sswu(&z, u))
            } else {
                let Some(z) = first(&rc.f, &|z| maps::svdw_ok(&rc, z)) else { return Ok(()) };
                map_history::<W>(ctx, "SvdW", &c, &|| Box::new(weierstrass::SVDW::new(c.e.clone(), c.fe(&z))) as W0, &spoil, None, &|u| rc.svdw(&z, u))
            }
        }
        2 => {
            let rc = random_curve(Kind::M, &p, &mut ctx.rng);
            let c = Crv::<M>::new(ctx, &rc)?;
            let Some(z) = first(&rc.f, &|z| maps::ell2_rfc(&rc, z)) else { return Ok(()) };
            let spoil = |ctx: &mut Ctx| {
                let z = c.fe(&gen::elt(&mut ctx.rng, &rc.f.p));
                attempt(ctx, || montgomery::Ell2::new(c.e.clone(), &z * &z))
            };
            map_history::<M>(ctx, "Elligator2", &c, &|| Box::new(montgomery::Ell2::new(c.e.clone(), c.fe(&z))) as M0, &spoil, None, &|u| rc.ell2(&z, u))
        }
        3 | 4 => {
            let name = ISO[(ctx.case / 6) as usize % 2];
            let (r0, r1) = (crate::named::rc(name), crate::named::rc(iso_target(name)));
            let z = r0.f.small(if name == ISO[0] { -11 } else { 11 });
            let (c0, c) = (Crv::<W>::new(ctx, &r0)?, Crv::<W>::new(ctx, &r1)?);
            let other = Crv::<W>::new(ctx, &crate::named::rc("P256"))?;
            let co = crate::named::iso_coeffs(name);
            let fuse = Fuse::new();
            let spoil = |ctx: &mut Ctx| match ctx.rng.below(4) {
                0 => attempt(ctx, || weierstrass::SSWUAB0::new(other.e.clone(), c0.fe(&z), lib_iso(name))),
                1 => attempt(ctx, || weierstrass::SSWUAB0::new(c.e.clone(), c0.f.one(), lib_iso(name))),
                // points of another curve
                2 => attempt(ctx, || lib_iso(name).push(other.e.get_generator())),
                _ => attempt(ctx, || weierstrass::SSWUAB0::new(c0.e.clone(), c0.fe(&z), lib_iso(name))),
            };
            map_history::<W>(
                ctx,
                "SSWUAB0",
                &c,
                &|| Box::new(weierstrass::SSWUAB0::new(c.e.clone(), c0.fe(&z), Box::new(FlakyIso(lib_iso(name), fuse.clone())))) as W0,
                &spoil,
                Some(&fuse),
                &|u| iso_image(&co, &r0.f, &r0.sswu(&z, u)),
            )
        }
        _ => {
            let rat = &rats()[(ctx.case / 6) as usize % 2];
            let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
            let (c, cm) = (Crv::<E>::new(ctx, &re)?, Crv::<M>::new(ctx, &rm)?);
            let wrong = &rats()[1 - (ctx.case / 6) as usize % 2];
            let cw = Crv::<M>::new(ctx, &crate::named::rc(wrong.mt))?;
            let Some(z) = first(&rm.f, &|z| maps::ell2_rfc(&rm, z)) else { return Ok(()) };
            let fuse = Fuse::new();
            let spoil = |ctx: &mut Ctx| match ctx.rng.below(5) {
                0 => attempt(ctx, || edwards::Ell2::new(c.e.clone(), cm.fe(&z), None)),
                1 => attempt(ctx, || edwards::Ell2::new(c.e.clone(), cm.fe(&z), Some(wrong.lib()))),
                2 => attempt(ctx, || edwards::Ell2::new(c.e.clone(), cm.f.one(), Some(rat.lib()))),
                3 => attempt(ctx, || rat.lib().pull(cw.e.get_generator())),
                _ => attempt(ctx, || wrong.lib().push(c.e.get_generator())),
            };
            map_history::<E>(
                ctx,
                "Elligator2",
                &c,
                &|| Box::new(edwards::Ell2::new(c.e.clone(), cm.fe(&z), Some(Box::new(FlakyRat(rat.lib(), fuse.clone()))))) as E0,
                &spoil,
                Some(&fuse),
                &|u| rat.pull(&re.f, &rm.ell2(&z, u)),
            )
        }
    }
}

pub fn c32(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C32",
        "a case is one history: refused or failed attempts (foreign operands, unsupported exponents, malformed text and octets, points off the curve, unsuitable map parameters, user callbacks that panic) in between supported operations on the same handles, operands and maps, each compared with the reference; distinct = distinct supported operation (structure, operands)",
    );
    pl.must_hit = vec![
        "attempts refused",
        "attempts answered",
        "attempts repeated",
        "fields after refusals",
        "roots after refusals",
        "extensions after refusals",
        "curves after refusals",
        "decodings after refusals",
        "maps after refusals",
        "failing callbacks",
    ];
    pl.job("prime fields", many(th, 240, 8000), fp_history);
    pl.job("quadratic extensions", many(th, 160, 5000), fp2_history);
    fn of<C: Cut>(pl: &mut Plan, th: bool) {
        let named = named_rcs(C::KIND);
        pl.job(format!("{:?} curves", C::KIND), many(th, 80, 3000), move |ctx| curve_history::<C>(ctx, &named));
    }
    of::<W>(&mut pl, th);
    of::<M>(&mut pl, th);
    of::<E>(&mut pl, th);
    pl.job("maps", many(th, 96, 3000), maps_history);
    pl
}
