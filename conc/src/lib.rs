//! Shared-use scenarios: a value of the library used by several threads at once.
use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::field::{Field, Sgn0, Sqrt};
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The handles can be sent to and shared by threads (a compile-time monitor).
pub fn assert_thread_safe() {
    fn ok<T: Send + Sync + 'static>() {}
    ok::<Fp>();
    ok::<FpElt>();
    ok::<Fp2>();
    ok::<Fp2Elt>();
    ok::<weierstrass::Curve>();
    ok::<weierstrass::Point>();
    ok::<weierstrass::Scalar>();
    ok::<montgomery::Curve>();
    ok::<montgomery::Point>();
    ok::<montgomery::Scalar>();
    ok::<edwards::Curve>();
    ok::<edwards::Point>();
    ok::<edwards::Scalar>();
}

/// A bundle of handles; `run` performs one operation and renders its result.
pub trait Scenario: Send + Sync {
    fn ops(&self) -> usize;
    fn run(&self, op: usize, arg: u64) -> Vec<u8>;
    /// the same values built from scratch: shares nothing with self
    fn fresh(&self) -> Box<dyn Scenario>;
    /// clones of the handles
    fn fork(&self) -> Box<dyn Scenario>;
    fn name(&self) -> String;
}

fn refused<T>(f: impl FnOnce() -> T) -> Vec<u8> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => b"value".to_vec(),
        Err(_) => b"refused".to_vec(),
    }
}

pub struct FpScn {
    f: Fp,
    /// an independently created instance of the same field
    twin: Fp,
    p: BigUint,
    big: bool,
}

impl FpScn {
    pub fn new(p: &BigUint) -> FpScn {
        FpScn { f: Fp::new(p.clone()), twin: Fp::new(p.clone()), p: p.clone(), big: p.bits() > 600 }
    }
    fn reps(&self) -> usize {
        if cfg!(miri) {
            2
        } else {
            150
        }
    }
    fn elt(&self, arg: u64) -> FpElt {
        let v = BigInt::from(arg);
        let w = if self.p.bits() > 64 { &v * &v * &v * &v + 7u32 } else { v };
        self.f.elt(w)
    }
}

impl Scenario for FpScn {
    fn ops(&self) -> usize {
        9
    }
    fn run(&self, op: usize, arg: u64) -> Vec<u8> {
        let a = self.elt(arg);
        // op 0 and 1 use the lazily filled constants and dominate the workload
        let sq = &a * &a;
        match op {
            0 => {
                let r = sq.sqrt();
                let mut o = r.to_bytes_be();
                o.push((&r * &r == sq) as u8);
                o
            }
            1 => {
                let mut o = a.sqrt().to_bytes_be();
                o.push(a.is_square() as u8);
                o
            }
            2 if !self.big => (1u32 / &a).to_bytes_le(),
            3 => (&a + &sq - self.f.one()).to_bytes_be(),
            4 => refused(|| &a + Fp::new(&self.p + 2u32).one()),
            5 => {
                let x = self.f.from_bytes_be(&a.to_bytes_be()).unwrap();
                vec![(x == a) as u8, a.sgn0() as u8, (-&a).sgn0() as u8]
            }
            6 => format!("{} {}", self.f, self.f.from("0x1234567")).into_bytes(),
            8 => {
                // both orders of operands from two instances; the same answer
                let b = self.twin.elt(BigInt::from(arg >> 1));
                let c = self.f.elt(BigInt::from(arg >> 1));
                let mut eq = 0u8;
                for _ in 0..self.reps() {
                    eq += if arg & 1 == 0 { self.f == self.twin && b == c } else { self.twin == self.f && c == b } as u8;
                }
                let s = if arg & 1 == 0 { &b + &c } else { &c + &b };
                let t = if arg & 1 == 0 { &b * &c } else { &c * &b };
                let mut o = (s - t).to_bytes_be();
                o.push(eq);
                o
            }
            _ => (&a ^ &BigInt::from(arg as i64 >> 40)).to_bytes_be(),
        }
    }
    fn fresh(&self) -> Box<dyn Scenario> {
        Box::new(FpScn::new(&self.p))
    }
    fn fork(&self) -> Box<dyn Scenario> {
        Box::new(FpScn { f: self.f.clone(), twin: self.twin.clone(), p: self.p.clone(), big: self.big })
    }
    fn name(&self) -> String {
        format!("GF(p), {} bits, p mod 8 = {}", self.p.bits(), &self.p % 8u32)
    }
}

pub struct Fp2Scn {
    f: Fp2,
    twin: Fp2,
    p: BigUint,
}

impl Fp2Scn {
    pub fn new(p: &BigUint) -> Fp2Scn {
        Fp2Scn { f: Fp2::new(p.clone()), twin: Fp2::new(p.clone()), p: p.clone() }
    }
}

impl Scenario for Fp2Scn {
    fn ops(&self) -> usize {
        7
    }
    fn run(&self, op: usize, arg: u64) -> Vec<u8> {
        let a: Fp2Elt = FromFactory::from(&self.f, format!("{},{}", arg >> 20, arg & 0xfffff).as_str());
        let sq = &a * &a;
        match op {
            0 => {
                let r = sq.sqrt();
                let mut o = r.to_bytes_be();
                o.push((&r * &r == sq) as u8);
                o
            }
            1 => {
                let mut o = a.sqrt().to_bytes_be();
                o.push(a.is_square() as u8);
                o
            }
            2 => (1u32 / &a).to_bytes_be(),
            3 => (&a + &sq - self.f.one()).to_bytes_le(),
            4 => refused(|| &a * Fp2::new(&self.p + 4u32).one()),
            6 => {
                let t = self.twin.one();
                let mut eq = 0u8;
                for _ in 0..if cfg!(miri) { 2 } else { 100 } {
                    eq += if arg & 1 == 0 { self.f == self.twin } else { self.twin == self.f } as u8;
                }
                let mut o = if arg & 1 == 0 { &t + &sq } else { &sq + &t }.to_bytes_be();
                o.push(eq);
                o
            }
            _ => vec![a.sgn0() as u8, (-&a).sgn0() as u8],
        }
    }
    fn fresh(&self) -> Box<dyn Scenario> {
        Box::new(Fp2Scn::new(&self.p))
    }
    fn fork(&self) -> Box<dyn Scenario> {
        Box::new(Fp2Scn { f: self.f.clone(), twin: self.twin.clone(), p: self.p.clone() })
    }
    fn name(&self) -> String {
        format!("GF(p^2), {} bits", self.p.bits())
    }
}

fn bits(k: u64) -> BigInt {
    // sparse, dense and negative multipliers
    let k = BigInt::from(k) * BigInt::from(k | 1);
    if &k % 3u32 == BigInt::from(0) {
        -k
    } else {
        k
    }
}

/// Two unrelated values used at once: nothing of one may reach the other.
pub struct MixScn {
    a: Box<dyn Scenario>,
    b: Box<dyn Scenario>,
}

impl MixScn {
    pub fn new(a: Box<dyn Scenario>, b: Box<dyn Scenario>) -> MixScn {
        MixScn { a, b }
    }
}

impl Scenario for MixScn {
    fn ops(&self) -> usize {
        2 * self.a.ops().min(self.b.ops())
    }
    fn run(&self, op: usize, arg: u64) -> Vec<u8> {
        if op & 1 == 0 { &self.a } else { &self.b }.run(op / 2, arg)
    }
    fn fresh(&self) -> Box<dyn Scenario> {
        Box::new(MixScn { a: self.a.fresh(), b: self.b.fresh() })
    }
    fn fork(&self) -> Box<dyn Scenario> {
        Box::new(MixScn { a: self.a.fork(), b: self.b.fork() })
    }
    fn name(&self) -> String {
        format!("{} and {}", self.a.name(), self.b.name())
    }
}

macro_rules! curve_scn {
    ($t:ident, $m:ident, $make:expr, $map:expr) => {
        pub struct $t {
            e: $m::Curve,
            g: $m::Point,
            /// the generator of an independently created instance
            twin: $m::Point,
            which: usize,
        }
        impl $t {
            pub fn new(which: usize) -> $t {
                let make: fn(usize) -> $m::Curve = $make;
                let e = make(which);
                let g = e.get_generator();
                let twin = make(which).get_generator();
                $t { e, g, twin, which }
            }
        }
        impl Scenario for $t {
            fn ops(&self) -> usize {
                10
            }
            fn run(&self, op: usize, arg: u64) -> Vec<u8> {
                match op {
                    0 => {
                        // decoding a compressed point takes a square root
                        let g2 = &self.g + &self.g;
                        let b = g2.encode(true);
                        let d = self.e.decode(&b).unwrap();
                        let mut o = d.encode(false);
                        o.push((d == g2) as u8);
                        o
                    }
                    1 => {
                        let f = self.e.get_field();
                        let a = f.elt(BigInt::from(arg));
                        (&a * &a).sqrt().to_bytes_be()
                    }
                    2 => (&self.g * self.e.new_scalar(BigInt::from(arg & 0xffff))).encode(false),
                    3 => (self.e.new_scalar(bits(arg >> 32)) * &self.g).encode(true),
                    4 => {
                        let s = &self.g - &self.g;
                        let mut o = s.encode(false);
                        o.push(s.is_zero() as u8);
                        o
                    }
                    5 => {
                        let mut p = &self.g + (&self.g + &self.g);
                        let o = p.encode(false);
                        p.normalize();
                        let mut o2 = p.encode(false);
                        o2.push((o == p.encode(false)) as u8);
                        o2
                    }
                    6 => {
                        let a = self.e.new_scalar(BigInt::from(arg));
                        let b = self.e.new_scalar(BigInt::from(arg >> 7 | 1));
                        (&a * &b - a / b).to_bytes_be()
                    }
                    9 => {
                        let (a, b) = if arg & 1 == 0 { (&self.g, &self.twin) } else { (&self.twin, &self.g) };
                        let mut eq = 0u8;
                        for _ in 0..if cfg!(miri) { 1 } else { 20 } {
                            eq += (a == b) as u8;
                        }
                        let mut o = (a + b).encode(false);
                        o.push(eq);
                        o.push((a - b).is_zero() as u8);
                        o
                    }
                    7 => refused(|| self.e.new_point(self.e.get_field().from(2), self.e.get_field().from(5))),
                    _ => {
                        let f = self.e.get_field();
                        let map: fn(usize, &$m::Curve, &FpElt) -> $m::Point = $map;
                        map(self.which, &self.e, &f.elt(BigInt::from(arg))).encode(false)
                    }
                }
            }
            fn fresh(&self) -> Box<dyn Scenario> {
                Box::new($t::new(self.which))
            }
            fn fork(&self) -> Box<dyn Scenario> {
                Box::new($t { e: self.e.clone(), g: self.g.clone(), twin: self.twin.clone(), which: self.which })
            }
            fn name(&self) -> String {
                format!("{} curve #{} over {} bits", stringify!($m), self.which, self.e.get_field().get_modulus().bits())
            }
        }
    };
}

// tiny curves keep the interpreter runs short
static TINY_W: weierstrass::Params =
    weierstrass::Params { name: "tiny", p: "11", a: "1", b: "6", r: "13", h: "1", gx: "2", gy: "7" };
static TINY_M: montgomery::Params =
    montgomery::Params { name: "tiny", p: "29", a: "6", b: "1", s: "1", r: "5", h: "8", gx: "9", gy: "8" };
static TINY_E: edwards::Params =
    edwards::Params { name: "tiny", p: "29", a: "1", d: "3", r: "7", h: "4", gx: "5", gy: "4" };

curve_scn!(
    WScn,
    weierstrass,
    |w| match w {
        0 => weierstrass::Curve::from(&TINY_W),
        1 => ins::P256.get(),
        2 => ins::P521.get(),
        _ => ins::SECP256K1_3ISO.get(),
    },
    |which, e, u| {
        let f = e.get_field();
        let z = match which {
            0 => return e.get_generator() + e.get_generator(),
            1 => f.from(-10),
            2 => f.from(-4),
            _ => f.from(-11),
        };
        weierstrass::SSWU::new(e.clone(), z).map(u)
    }
);
curve_scn!(
    MScn,
    montgomery,
    |w| match w {
        0 => montgomery::Curve::from(&TINY_M),
        1 => ins::CURVE25519.get(),
        _ => ins::CURVE448.get(),
    },
    |which, e, u| {
        let f = e.get_field();
        let z = if which == 2 { f.from(-1) } else { f.from(2) };
        montgomery::Ell2::new(e.clone(), z).map(u)
    }
);
curve_scn!(
    EScn,
    edwards,
    |w| match w {
        0 => edwards::Curve::from(&TINY_E),
        1 => ins::EDWARDS25519.get(),
        _ => ins::EDWARDS448.get(),
    },
    |which, e, u| {
        let f = e.get_field();
        match which {
            0 => e.get_generator() + e.get_generator(),
            1 => edwards::Ell2::new(e.clone(), f.from(2), Some(Box::new(ins::edwards25519_to_curve25519()))).map(u),
            _ => edwards::Ell2::new(e.clone(), f.from(-1), Some(Box::new(ins::edwards448_to_curve448()))).map(u),
        }
    }
);
