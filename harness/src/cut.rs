//! Curves under test: a uniform adaptor over the three models of the library,
//! observation helpers, and the generators of curves and points.
use crate::gen::{self, big, Rng};
use crate::mon::{guarded, Ctx, Fail, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::{BigInt, BigUint, ToBigInt};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use redox_ecc::field::Field;
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::collections::HashSet;
use std::sync::Mutex;

pub fn bi(n: &N) -> BigInt {
    n.to_bigint().unwrap()
}

/// Parameter blocks want 'static strings: intern them.
pub fn intern(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap();
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(v) = set.get(s) {
        return v;
    }
    let v: &'static str = Box::leak(s.to_string().into_boxed_str());
    set.insert(v);
    v
}

fn num(n: &N) -> &'static str {
    intern(&n.to_string())
}

pub const ADD_FORMS: usize = 4;
pub const NEG_FORMS: usize = 2;
pub const MUL_FORMS: usize = 7;

pub trait Cut: 'static {
    const KIND: Kind;
    type E: EllipticCurve<F = Fp, Point = Self::P, Scalar = Self::S>
        + Decode<Deser = Self::P>
        + Clone
        + PartialEq
        + std::fmt::Display;
    type P: EcPoint<Self::S> + Clone;
    type S: redox_ecc::ellipticcurve::EcScalar + Clone;
    /// A curve from parameters in any spelling.
    fn spelled(sp: &Spelling) -> Self::E;
    fn custom(rc: &RC) -> Self::E {
        Self::spelled(&Spelling::of(rc))
    }
    fn named(name: &str) -> Option<(Self::E, String)>;
    fn add(form: usize, a: &Self::P, b: &Self::P) -> Self::P;
    fn sub(form: usize, a: &Self::P, b: &Self::P) -> Self::P;
    fn neg(form: usize, a: &Self::P) -> Self::P;
    fn mul(form: usize, a: &Self::P, k: &Self::S) -> Self::P;
    fn normalize(a: &mut Self::P);
    fn two_torsion(a: &Self::P) -> Option<bool>;
    /// scalar equality, where the model offers it
    fn scalar_eq(a: &Self::S, b: &Self::S) -> Option<bool>;
    fn snew(k: BigInt, r: &BigUint) -> Self::S;
    fn sadd(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn ssub(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn smul(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn sdiv(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn sneg(form: usize, a: &Self::S) -> Self::S;
    fn sinv(n: u32, a: &Self::S) -> Self::S;
    fn bits_lr(a: &Self::S) -> Vec<bool>;
    fn bits_rl(a: &Self::S) -> Vec<bool>;
    /// the bit iterators consumed in every way iterators offer
    fn bits_ways(a: &Self::S, lr: bool, want: &[bool], i: usize, j: usize) -> Result<(), String>;
}

/// An iterator must yield `want` however it is consumed.
pub fn consume<I: Iterator<Item = bool>>(mk: impl Fn() -> I, want: &[bool], i: usize, j: usize) -> Result<(), String> {
    let n = want.len();
    let cap = n + 40;
    let err = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} (i={i}, j={j})")) };
    let (lo, hi) = mk().size_hint();
    err(lo <= n && hi.is_none_or(|h| h >= n), "size_hint")?;
    err(mk().take(cap).count() == n, "count of a prefix")?;
    err(mk().nth(i) == want.get(i).copied(), "nth")?;
    let mut it = mk();
    for k in 0..i.min(n) {
        err(it.next() == Some(want[k]), "next")?;
    }
    let (lo, hi) = it.size_hint();
    let rest = n - i.min(n);
    err(lo <= rest && hi.is_none_or(|h| h >= rest), "size_hint after some steps")?;
    let at = i.min(n) + j;
    err(it.nth(j) == want.get(at).copied(), "nth after some steps")?;
    if at < n {
        err(it.take(cap).eq(want[at + 1..].iter().copied()), "what follows nth")?;
    } else {
        err((0..3).all(|_| it.next().is_none()), "next after the end")?;
    }
    err(mk().skip(i).take(j).eq(want.iter().copied().skip(i).take(j)), "skip and take")?;
    err(mk().step_by(j + 1).take(cap).eq(want.iter().copied().step_by(j + 1)), "step_by")?;
    err(mk().position(|b| b == (j % 2 == 0)) == want.iter().position(|b| *b == (j % 2 == 0)), "position")?;
    err(mk().zip(0..).take(cap).filter(|x| x.0).map(|x| x.1).eq((0..n).filter(|k| want[*k])), "filter")?;
    // without a bound only now that the iterator is known to end
    err(mk().count() == n, "count")?;
    err(mk().last() == want.last().copied(), "last")?;
    err(mk().fold(vec![], |mut v, b| { v.push(b); v }) == want, "fold")?;
    err(mk().collect::<Vec<_>>() == want, "collect")?;
    let mut v = vec![];
    mk().for_each(|b| v.push(b));
    err(v == want, "for_each")?;
    err(mk().any(|b| b) == want.contains(&true) && mk().all(|b| b) != want.contains(&false), "any and all")?;
    let (a, b): (Vec<bool>, Vec<bool>) = mk().partition(|b| *b);
    err(a.len() + b.len() == n && a.len() == want.iter().filter(|b| **b).count(), "partition")
}

macro_rules! binforms {
    ($form:expr, $a:expr, $op:tt, $b:expr) => {
        match $form % 4 {
            0 => $a $op $b,
            1 => $a.clone() $op $b,
            2 => $a $op $b.clone(),
            _ => $a.clone() $op $b.clone(),
        }
    };
}

macro_rules! cut {
    ($t:ident, $m:ident, $kind:expr, |$sp:ident| $custom:expr, |$n:ident| $named:expr, |$tp:ident| $tt:expr, |$sa:ident, $sb:ident| $seq:expr) => {
        pub struct $t;
        impl Cut for $t {
            const KIND: Kind = $kind;
            type E = $m::Curve;
            type P = $m::Point;
            type S = $m::Scalar;
            fn spelled($sp: &Spelling) -> Self::E {
                $m::Curve::from(&$custom)
            }
            fn named($n: &str) -> Option<(Self::E, String)> {
                $named
            }
            fn add(form: usize, a: &Self::P, b: &Self::P) -> Self::P {
                binforms!(form, a, +, b)
            }
            fn sub(form: usize, a: &Self::P, b: &Self::P) -> Self::P {
                binforms!(form, a, -, b)
            }
            fn neg(form: usize, a: &Self::P) -> Self::P {
                if form % 2 == 0 {
                    -a
                } else {
                    -a.clone()
                }
            }
            fn mul(form: usize, p: &Self::P, k: &Self::S) -> Self::P {
                match form % 7 {
                    0 => p * k,
                    1 => p.clone() * k,
                    2 => p * k.clone(),
                    3 => p.clone() * k.clone(),
                    4 => k * p,
                    5 => k.clone() * p,
                    _ => k.clone() * p.clone(),
                }
            }
            fn normalize(a: &mut Self::P) {
                a.normalize()
            }
            fn two_torsion($tp: &Self::P) -> Option<bool> {
                $tt
            }
            fn scalar_eq($sa: &Self::S, $sb: &Self::S) -> Option<bool> {
                $seq
            }
            fn snew(k: BigInt, r: &BigUint) -> Self::S {
                $m::Scalar::new(k, r)
            }
            fn sadd(form: usize, a: &Self::S, b: &Self::S) -> Self::S {
                binforms!(form, a, +, b)
            }
            fn ssub(form: usize, a: &Self::S, b: &Self::S) -> Self::S {
                binforms!(form, a, -, b)
            }
            fn smul(form: usize, a: &Self::S, b: &Self::S) -> Self::S {
                binforms!(form, a, *, b)
            }
            fn sdiv(form: usize, a: &Self::S, b: &Self::S) -> Self::S {
                binforms!(form, a, /, b)
            }
            fn sneg(form: usize, a: &Self::S) -> Self::S {
                if form % 2 == 0 {
                    -a
                } else {
                    -a.clone()
                }
            }
            fn sinv(n: u32, a: &Self::S) -> Self::S {
                n / a
            }
            fn bits_lr(a: &Self::S) -> Vec<bool> {
                a.iter_lr().take(1 << 14).collect()
            }
            fn bits_rl(a: &Self::S) -> Vec<bool> {
                a.iter_rl().take(1 << 14).collect()
            }
            fn bits_ways(a: &Self::S, lr: bool, want: &[bool], i: usize, j: usize) -> Result<(), String> {
                if lr {
                    consume(|| a.iter_lr(), want, i, j)
                } else {
                    consume(|| a.iter_rl(), want, i, j)
                }
            }
        }
    };
}

/// The strings of a parameter block (b stands for d on Edwards curves).
#[derive(Clone)]
pub struct Spelling {
    pub name: &'static str,
    pub p: &'static str,
    pub a: &'static str,
    pub b: &'static str,
    pub s: &'static str,
    pub r: &'static str,
    pub h: &'static str,
    pub gx: &'static str,
    pub gy: &'static str,
}

impl Spelling {
    pub fn of(rc: &RC) -> Spelling {
        let RP::A(x, y) = &rc.g else { panic!("generator must be affine") };
        Spelling {
            name: "custom",
            p: num(&rc.f.p),
            a: num(&rc.a),
            b: num(&rc.b),
            s: num(&rc.s),
            r: num(&rc.r),
            h: num(&rc.h),
            gx: num(x),
            gy: num(y),
        }
    }
}

macro_rules! by_name {
    ($n:expr, $($name:literal => $id:expr),*) => {
        match $n {
            $($name => Some(($id.get(), $id.to_string())),)*
            _ => None,
        }
    };
}

cut!(W, weierstrass, Kind::W,
    |sp| weierstrass::Params { name: sp.name, p: sp.p, a: sp.a, b: sp.b, r: sp.r, h: sp.h, gx: sp.gx, gy: sp.gy },
    |n| by_name!(n, "P256" => ins::P256, "P384" => ins::P384, "P521" => ins::P521, "secp256k1" => ins::SECP256K1,
        "secp256k1_3iso" => ins::SECP256K1_3ISO, "bls12381_g1" => ins::BLS12381G1, "bls12381_g1_11iso" => ins::BLS12381G1_11ISO),
    |_p| None, |a, b| Some(a == b));
cut!(M, montgomery, Kind::M,
    |sp| montgomery::Params { name: sp.name, p: sp.p, a: sp.a, b: sp.b, s: sp.s, r: sp.r, h: sp.h, gx: sp.gx, gy: sp.gy },
    |n| by_name!(n, "curve25519" => ins::CURVE25519, "curve448" => ins::CURVE448),
    |p| Some(p.is_two_torsion()), |_a, _b| None);
cut!(E, edwards, Kind::E,
    |sp| edwards::Params { name: sp.name, p: sp.p, a: sp.a, d: sp.b, r: sp.r, h: sp.h, gx: sp.gx, gy: sp.gy },
    |n| by_name!(n, "edwards25519" => ins::EDWARDS25519, "edwards448" => ins::EDWARDS448),
    |_p| None, |_a, _b| None);

/// A curve instance of the library beside its reference description.
pub struct Crv<C: Cut> {
    pub rc: RC,
    pub e: C::E,
    pub f: Fp,
}

impl<C: Cut> Crv<C> {
    pub fn new(ctx: &Ctx, rc: &RC) -> R<Crv<C>> {
        assert!(rc.kind == C::KIND);
        let e = ctx.call(
            || format!("creating curve {}", rc.desc()),
            || if rc.name.is_empty() { C::custom(rc) } else { C::named(rc.name).expect("name").0 },
        )?;
        let f = ctx.call(|| format!("get_field of {}", rc.desc()), || e.get_field())?;
        Ok(Crv { rc: rc.clone(), e, f })
    }
    pub fn fe(&self, n: &N) -> FpElt {
        self.f.elt(bi(n))
    }
    /// library point for a reference point
    pub fn pt(&self, ctx: &Ctx, p: &RP) -> R<C::P> {
        ctx.call(
            || format!("constructing the point {p} of {}", self.rc.desc()),
            || self.pt_raw(p),
        )
    }
    pub fn pt_raw(&self, p: &RP) -> C::P {
        match p {
            RP::O => self.e.identity(),
            RP::A(x, y) => {
                if self.rc.is_id(p) {
                    self.e.identity()
                } else {
                    self.e.new_point(self.fe(x), self.fe(y))
                }
            }
        }
    }
    pub fn scalar(&self, ctx: &Ctx, k: &BigInt) -> R<C::S> {
        ctx.call(|| format!("new_scalar({k}) on {}", self.rc.desc()), || self.e.new_scalar(k.clone()))
    }
    /// A reference point different from `p` (None only on curves with one point).
    fn decoy(&self, p: &RP) -> Option<RP> {
        let g = &self.rc.g;
        let id = self.rc.id();
        // prefer an affine point with the same x (the negative), to catch sign blindness
        let n = self.rc.neg(p);
        if n != *p {
            return Some(n);
        }
        [g.clone(), id].into_iter().find(|q| q != p)
    }
    /// Is the observed point the abstract element `want`? A point is accepted if
    /// either observer of the library identifies it: its equality with a point
    /// built from affine coordinates (cross-checked against a different point),
    /// or its uncompressed encoding. (Defects of one observer alone are decided by
    /// the equality and encoding properties.)
    pub fn is(&self, got: &C::P, want: &RP) -> bool {
        let eq = guarded(|| {
            let w = self.pt_raw(want);
            let other = self.decoy(want).map(|d| self.pt_raw(&d));
            *got == w && w == *got && other.map_or(true, |o| !(*got == o))
        });
        if eq == Ok(true) {
            return true;
        }
        if *want == RP::O {
            return guarded(|| got.is_zero()) == Ok(true);
        }
        matches!(guarded(|| got.encode(false)), Ok(b) if b == self.rc.encode(want, false))
    }
    pub fn show(&self, p: &C::P) -> String {
        guarded(|| {
            let b = p.encode(false);
            let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let r = match self.rc.decode(&b) {
                Some(q) => q.to_string(),
                None => "not a point".into(),
            };
            format!("{r} [encoding {h}; coordinates{}]", p.to_string().replace('\n', " "))
        })
        .unwrap_or_else(|e| format!("<unprintable: {e}>"))
    }
    pub fn expect(&self, ctx: &mut Ctx, got: &C::P, want: &RP, what: impl Fn() -> String) -> R {
        let ok = self.is(got, want);
        ctx.check(ok, || {
            format!("on {}: {} gave {} instead of {want}", self.rc.desc(), what(), self.show(got))
        })
    }
    /// Rescaled representation of the same element, through arithmetic.
    pub fn rescale(&self, ctx: &mut Ctx, p: &C::P, q: &C::P) -> R<C::P> {
        ctx.call(|| format!("(P+Q)-Q on {}", self.rc.desc()), || C::sub(0, &C::add(0, p, q), q))
    }
    /// Point of the full group: structured choice.
    pub fn some_point(&self, rng: &mut Rng, special: &[RP]) -> RP {
        some_point(&self.rc, rng, special)
    }
}

pub fn is_panic<T>(f: impl FnOnce() -> T) -> bool {
    guarded(f).is_err()
}

/// A point of `rc` (any order): generator, identity, special (torsion) points, or
/// a lift of a structured coordinate.
pub fn some_point(rc: &RC, rng: &mut Rng, special: &[RP]) -> RP {
    match rng.below(10) {
        0 => rc.g.clone(),
        1 => rc.id(),
        2 | 3 if !special.is_empty() => special[rng.below(special.len())].clone(),
        4 if !special.is_empty() => {
            let s = special[rng.below(special.len())].clone();
            let q = rand_point(rc, rng);
            rc.add(&s, &q)
        }
        5 => rc.neg(&rc.g),
        _ => rand_point(rc, rng),
    }
}

pub fn rand_point(rc: &RC, rng: &mut Rng) -> RP {
    for _ in 0..400 {
        let c = gen::elt(rng, &rc.f.p);
        let v = rc.with_coord(&c);
        if !v.is_empty() {
            return v[rng.below(v.len())].clone();
        }
    }
    rc.g.clone()
}

/// Low-order points of a curve: multiples of r of random points, their
/// multiples; for cofactor curves this covers the torsion subgroup.
pub fn torsion(rc: &RC) -> Vec<RP> {
    if rc.h.is_one() {
        return vec![];
    }
    let mut rng = Rng::new(0x70_72);
    let mut out: Vec<RP> = vec![];
    if rc.h.bits() <= 8 {
        for _ in 0..60 {
            let t = rc.mul_raw(&rand_point(rc, &mut rng), &rc.r);
            let mut q = t.clone();
            loop {
                if !out.contains(&q) && !rc.is_id(&q) {
                    out.push(q.clone());
                }
                if rc.is_id(&q) || out.len() > 64 {
                    break;
                }
                q = rc.add(&q, &t);
            }
            if big(out.len() as u64 + 1) == rc.h {
                break;
            }
        }
    } else {
        // BLS12-381: points of order 3 and 11 and a few mixed ones
        for q in [3u32, 11] {
            let mut m = &rc.h / q;
            while (&m % q).is_zero() {
                m /= q;
            }
            for _ in 0..40 {
                let t = rc.mul_raw(&rc.mul_raw(&rand_point(rc, &mut rng), &rc.r), &m);
                if rc.is_id(&t) {
                    continue;
                }
                // t has order a power of q; descend to order q
                let mut t = t;
                loop {
                    let n = rc.mul_raw(&t, &big(q as u64));
                    if rc.is_id(&n) {
                        break;
                    }
                    t = n;
                }
                let mut k = t.clone();
                while !rc.is_id(&k) {
                    if !out.contains(&k) {
                        out.push(k.clone());
                    }
                    k = rc.add(&k, &t);
                }
                break;
            }
        }
    }
    out
}

/// Does y^2-type cubic x^3 + a2 x^2 + a1 x + a0 have a root mod p?
pub fn cubic_has_root(f: &F, a2: &N, a1: &N, a0: &N) -> bool {
    // compute x^p mod cubic; root exists iff gcd(x^p - x, cubic) != 1
    let p = &f.p;
    type Q = [N; 3];
    let mulmod = |u: &Q, v: &Q| -> Q {
        let mut c = vec![N::zero(); 5];
        for i in 0..3 {
            for j in 0..3 {
                c[i + j] = f.add(&c[i + j], &f.mul(&u[i], &v[j]));
            }
        }
        for k in [4usize, 3] {
            let t = c[k].clone();
            c[k] = N::zero();
            c[k - 1] = f.sub(&c[k - 1], &f.mul(&t, a2));
            c[k - 2] = f.sub(&c[k - 2], &f.mul(&t, a1));
            c[k - 3] = f.sub(&c[k - 3], &f.mul(&t, a0));
        }
        [c[0].clone(), c[1].clone(), c[2].clone()]
    };
    let x: Q = [N::zero(), N::one(), N::zero()];
    let mut r: Q = [N::one(), N::zero(), N::zero()];
    for i in (0..p.bits()).rev() {
        r = mulmod(&r, &r);
        if p.bit(i) {
            r = mulmod(&r, &x);
        }
    }
    let mut g: Vec<N> = vec![r[0].clone(), f.sub(&r[1], &N::one()), r[2].clone()];
    let mut m: Vec<N> = vec![a0.clone(), a1.clone(), a2.clone(), N::one()];
    // Euclid
    let trim = |v: &mut Vec<N>| {
        while v.last().is_some_and(|c| c.is_zero()) {
            v.pop();
        }
    };
    trim(&mut g);
    loop {
        if g.is_empty() {
            return m.len() > 1;
        }
        // m mod g
        let lead = f.inv(g.last().unwrap());
        while m.len() >= g.len() {
            let q = f.mul(m.last().unwrap(), &lead);
            let off = m.len() - g.len();
            for (i, gi) in g.iter().enumerate() {
                m[off + i] = f.sub(&m[off + i], &f.mul(&q, gi));
            }
            m.pop();
            trim(&mut m);
            if m.is_empty() {
                break;
            }
        }
        std::mem::swap(&mut g, &mut m);
    }
}

pub fn nonsingular(kind: Kind, f: &F, a: &N, b: &N) -> bool {
    match kind {
        Kind::W => {
            let d = f.add(
                &f.mul(&f.small(4), &f.mul(a, &f.sqr(a))),
                &f.mul(&f.small(27), &f.sqr(b)),
            );
            !d.is_zero()
        }
        Kind::M => !b.is_zero() && f.sqr(a) != f.small(4),
        Kind::E => !a.is_zero() && !b.is_zero() && a != b,
    }
}

/// Group laws of the library are specified on these curves.
pub fn law_applies(kind: Kind, f: &F, a: &N, b: &N, s: &N) -> bool {
    if !nonsingular(kind, f, a, b) {
        return false;
    }
    match kind {
        // odd order: no rational 2-torsion
        Kind::W => !cubic_has_root(f, &N::zero(), a, b),
        // no rational point with y = s
        Kind::M => !cubic_has_root(f, a, &N::one(), &f.neg(&f.mul(b, &f.sqr(s)))),
        Kind::E => f.is_square(a) && !f.is_square(b),
    }
}

fn factor_max(mut n: u64) -> u64 {
    let mut best = 1;
    let mut d = 2;
    while d * d <= n {
        while n % d == 0 {
            best = d;
            n /= d;
        }
        d += 1;
    }
    best.max(n)
}

/// Completes a tiny curve (order, cofactor, generator) by enumeration.
pub fn tiny_rc(kind: Kind, p: u64, a: u64, b: u64, s: u64) -> Option<RC> {
    let f = F::new(&big(p));
    let mut rc = RC {
        kind,
        name: "",
        f,
        a: big(a),
        b: big(b),
        s: big(s),
        r: N::one(),
        h: N::one(),
        g: RP::O,
    };
    let pts = rc.enumerate();
    let n = pts.len() as u64;
    let r = factor_max(n);
    if r < 3 {
        return None;
    }
    rc.r = big(r);
    rc.h = big(n / r);
    for q in &pts {
        let g = rc.mul_raw(q, &rc.h.clone());
        if !rc.is_id(&g) {
            let mut ord = 1;
            let mut t = g.clone();
            while !rc.is_id(&t) {
                t = rc.add(&t, &g);
                ord += 1;
            }
            if ord == r {
                rc.g = g;
                return Some(rc);
            }
        }
    }
    // r divides the exponent more than once: take any point of order r
    for q in &pts {
        let mut k = q.clone();
        let mut ord = 1u64;
        while !rc.is_id(&k) {
            k = rc.add(&k, q);
            ord += 1;
        }
        if ord % r == 0 && ord > 1 {
            rc.g = rc.mul_raw(q, &big(ord / r));
            return Some(rc);
        }
    }
    None
}

/// All law-admissible tiny curves over GF(p).
pub fn tiny_curves(kind: Kind, p: u64) -> Vec<RC> {
    let f = F::new(&big(p));
    let mut v = vec![];
    for a in 0..p {
        for b in 0..p {
            match kind {
                Kind::M => {
                    for s in 1..p {
                        if law_applies(kind, &f, &big(a), &big(b), &big(s)) {
                            v.extend(tiny_rc(kind, p, a, b, s));
                        }
                    }
                }
                _ => {
                    if law_applies(kind, &f, &big(a), &big(b), &N::zero()) {
                        v.extend(tiny_rc(kind, p, a, b, 0));
                    }
                }
            }
        }
    }
    v
}

/// A deterministic selection of at most `n` tiny curves over GF(p), always
/// containing A=0 / B=1 style corner coefficients when they exist.
pub fn tiny_sample(kind: Kind, p: u64, n: usize, seed: u64) -> Vec<RC> {
    let f = F::new(&big(p));
    let mut rng = Rng::new(seed ^ (p << 8) ^ kind as u64);
    let mut v: Vec<RC> = vec![];
    for t in 0..n * 60 {
        if v.len() >= n {
            break;
        }
        let c = |rng: &mut Rng, t: usize, k: usize| -> u64 {
            // early attempts: corners
            let corner = [0, 1, p - 1, 2];
            if t < 16 {
                corner[(t >> (2 * k)) & 3]
            } else {
                rng.below(p as usize) as u64
            }
        };
        let a = c(&mut rng, t, 0);
        let b = c(&mut rng, t, 1);
        let s = if kind == Kind::M { 1 + rng.below(p as usize - 1) as u64 } else { 0 };
        if law_applies(kind, &f, &big(a), &big(b), &big(s)) {
            if let Some(rc) = tiny_rc(kind, p, a, b, s) {
                if !v.iter().any(|o| o.a == rc.a && o.b == rc.b) {
                    v.push(rc);
                }
            }
        }
    }
    v
}

/// Coefficients for which the coordinate `c` (y for Edwards curves, x otherwise) has
/// the square `w` of the other coordinate.
pub fn coefs_with(kind: Kind, f: &F, rng: &mut Rng, c: &N, w: &N) -> Option<(N, N)> {
    let c2 = f.sqr(c);
    Some(match kind {
        Kind::W => {
            let a = gen::elt(rng, &f.p);
            let b = f.sub(w, &f.add(&f.mul(&c2, c), &f.mul(&a, c)));
            (a, b)
        }
        Kind::M => {
            if c.is_zero() {
                return None;
            }
            let b = if rng.one_in(3) { N::one() } else { gen::nonzero_elt(rng, &f.p) };
            let n = f.sub(&f.sub(&f.mul(&b, w), &f.mul(&c2, c)), c);
            (f.div(&n, &c2), b)
        }
        Kind::E => {
            if w.is_zero() {
                return None;
            }
            let d = gen::elt(rng, &f.p);
            let n = f.sub(&f.add(&N::one(), &f.mul(&d, &f.mul(w, &c2))), &c2);
            (f.div(&n, w), d)
        }
    })
}

/// A nonsingular curve on which the coordinate `c` has the square `w` of the other
/// coordinate (so there is no such point if `w` is not a square).
pub fn curve_with(kind: Kind, p: &N, rng: &mut Rng, c: &N, w: &N) -> Option<RC> {
    let f = F::new(p);
    let (a, b) = coefs_with(kind, &f, rng, c, w)?;
    if !nonsingular(kind, &f, &a, &b) {
        return None;
    }
    let s = if kind == Kind::M { big(1 + rng.below(9) as u64) } else { N::zero() };
    let r = gen::rand_prime(rng, 20, |_| true);
    let mut rc = RC { kind, name: "", f, a, b, s, r, h: N::one(), g: RP::O };
    for _ in 0..400 {
        let c = gen::elt(rng, p);
        if let Some(q) = rc.with_coord(&c).into_iter().find(|q| !rc.is_id(q)) {
            rc.g = q;
            return Some(rc);
        }
    }
    None
}

/// A pair of coordinates which misses the curve: the two sides of its equation differ
/// by something structured, or the pair is on a curve with related coefficients.
pub fn near_miss(rc: &RC, rng: &mut Rng) -> Option<(N, N)> {
    let f = &rc.f;
    let p = &f.p;
    let bits = p.bits() as usize;
    let v = if rng.bool() {
        // the residual is structured
        let t = match rng.below(4) {
            0 => {
                let k = rng.below(bits);
                gen::pattern(rng, bits - k) << k
            }
            1 => N::one() << *rng.pick(&[8usize, 16, 32, 64, 128, 192, 256]),
            _ => gen::elt(rng, p),
        } % p;
        let c = match (rng.below(3), &rc.g) {
            (0, RP::A(x, y)) => if rc.kind == Kind::E { y.clone() } else { x.clone() },
            _ => gen::elt(rng, p),
        };
        let c2 = f.sqr(&c);
        let o2 = match rc.kind {
            Kind::W => f.add(&f.add(&f.add(&f.mul(&c2, &c), &f.mul(&rc.a, &c)), &rc.b), &t),
            Kind::M => {
                let g = f.add(&f.add(&f.mul(&c2, &c), &f.mul(&rc.a, &c2)), &c);
                f.div(&f.add(&g, &t), &rc.b)
            }
            Kind::E => {
                let den = f.sub(&rc.a, &f.mul(&rc.b, &c2));
                if den.is_zero() {
                    return None;
                }
                f.div(&f.sub(&f.add(&N::one(), &t), &c2), &den)
            }
        };
        let o = f.sqrt(&o2)?;
        let o = if rng.bool() { f.neg(&o) } else { o };
        if rc.kind == Kind::E { (o, c) } else { (c, o) }
    } else {
        let mut o = rc.clone();
        let k = f.small(*rng.pick(&[0, 1, -1, 2, -2, 3]));
        match rng.below(7) {
            0 => o.a = f.neg(&o.a),
            1 => o.b = f.neg(&o.b),
            2 => std::mem::swap(&mut o.a, &mut o.b),
            3 => o.a = k,
            4 => o.b = k,
            5 => o.a = f.add(&o.a, &N::one()),
            _ => o.b = f.add(&o.b, &N::one()),
        }
        if !nonsingular(o.kind, f, &o.a, &o.b) {
            return None;
        }
        match rand_point(&o, rng) {
            RP::A(x, y) => (x, y),
            RP::O => return None,
        }
    };
    Some(v)
}

/// A random law-admissible curve over GF(p) of any size; its scalar order is an
/// arbitrary odd prime (the group law does not depend on it).
pub fn random_curve(kind: Kind, p: &N, rng: &mut Rng) -> RC {
    let f = F::new(p);
    loop {
        // now and then a curve through a point with structured coordinates
        let (x, y) = (gen::elt(rng, p), gen::elt(rng, p));
        let (c, o) = if kind == Kind::E { (&y, &x) } else { (&x, &y) };
        let thru = if rng.one_in(3) { coefs_with(kind, &f, rng, c, &f.sqr(o)) } else { None };
        let forced = thru.is_some();
        let (a, b) = match (thru, kind, rng.below(3)) {
            (Some(v), ..) => v,
            (_, Kind::M, 0) => (gen::elt(rng, p), N::one()),
            _ => (gen::elt(rng, p), gen::elt(rng, p)),
        };
        let s = if kind == Kind::M {
            if rng.bool() {
                big(1 + rng.below(9) as u64)
            } else {
                gen::nonzero_elt(rng, p)
            }
        } else {
            N::zero()
        };
        if !law_applies(kind, &f, &a, &b, &s) {
            continue;
        }
        let rb = 3 + rng.below(p.bits() as usize + 8);
        let mut rc = RC {
            kind,
            name: "",
            f: f.clone(),
            a,
            b,
            s,
            r: gen::rand_prime(rng, rb, |_| true),
            h: N::one(),
            g: RP::O,
        };
        rc.g = if forced {
            RP::A(x, y)
        } else {
            loop {
                let c = gen::elt(rng, p);
                let v = rc.with_coord(&c);
                if let Some(q) = v.into_iter().find(|q| !rc.is_id(q)) {
                    break q;
                }
            }
        };
        return rc;
    }
}

/// Any nonsingular tiny curve (even order, incomplete addition included), for
/// the properties which do not involve the group law. The generator is any point.
pub fn any_tiny(kind: Kind, p: u64, n: usize, seed: u64) -> Vec<RC> {
    let f = F::new(&big(p));
    let mut rng = Rng::new(seed ^ (p << 9) ^ (kind as u64) << 3);
    let mut v: Vec<RC> = vec![];
    for _ in 0..n * 20 {
        if v.len() >= n {
            break;
        }
        let (a, b) = (big(rng.below(p as usize) as u64), big(rng.below(p as usize) as u64));
        if !nonsingular(kind, &f, &a, &b) {
            continue;
        }
        let s = if kind == Kind::M { big(1 + rng.below(p as usize - 1) as u64) } else { N::zero() };
        let mut rc = RC { kind, name: "", f: f.clone(), a, b, s, r: big(3), h: N::one(), g: RP::O };
        let id = rc.id();
        let g = (0..p).find_map(|c| rc.with_coord(&big(c)).into_iter().find(|q| *q != id));
        if let Some(g) = g {
            rc.g = g;
            v.push(rc);
        }
    }
    v
}

pub fn named_rcs(kind: Kind) -> Vec<RC> {
    crate::named::NAMES.iter().map(|n| crate::named::rc(n)).filter(|r| r.kind == kind).collect()
}

pub fn fail(msg: String) -> R {
    Err(Fail::Violation(msg))
}

/// Integers as scalars: reduced, boundary, negative and oversized.
pub fn scalar_int(rng: &mut Rng, r: &N) -> BigInt {
    match rng.below(8) {
        0 => BigInt::from(rng.below(5)),
        1 => bi(r) + BigInt::from(rng.below(5)) - 2,
        2 => -BigInt::from(rng.below(5)),
        _ => gen::int(rng, r),
    }
}
