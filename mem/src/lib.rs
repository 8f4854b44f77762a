//! Histories that create values, use them and drop everything.
use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Input {
    /// primes congruent to 3 mod 4 and to 5 mod 8
    pub p3: BigUint,
    pub p5: BigUint,
    pub k: u64,
}

pub type Step = fn(&Input);

fn quiet<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn fp_basic(p: &BigUint, k: u64) -> FpElt {
    let f = Fp::new(p.clone());
    let g = f.clone();
    let a = f.elt(BigInt::from(k));
    let b = FromFactory::from(&g, "-0x1234567");
    let c = (&a + &b) * (&a - &b) - &a / &b;
    let d = g.from_bytes_be(&c.to_bytes_be()).unwrap();
    let e = f.from_bytes_le(&c.to_bytes_le()).unwrap();
    let _ = (d == e, a.sgn0(), b.is_square(), c.to_string(), f.to_string());
    let _ = &c ^ &BigInt::from(-3);
    let _ = &c ^ &BigUint::from(k);
    let _ = FpElt::cmov(&a, &b, k & 1 == 1);
    c // outlives every handle of its field
}

fn fp2_basic(p: &BigUint, k: u64) -> Fp2Elt {
    let f = Fp2::new(p.clone());
    let a: Fp2Elt = FromFactory::from(&f, format!("{k},{}", k / 3).as_str());
    let b = f.clone().elt(BigInt::from(k) + 5u32);
    let c = (&a + &b) * (&a - &b) - &a / &b;
    let d = f.from_bytes_be(&c.to_bytes_be()).unwrap();
    let e = f.from_bytes_le(&c.to_bytes_le()).unwrap();
    let _ = (d == e, a.sgn0(), b.is_square(), c.to_string(), f.from_bytes_be(&[1, 2, 3]).is_err());
    let _ = &c ^ &BigUint::from(k);
    c
}

macro_rules! curve_steps {
    ($m:ident, $name:ident, $dec:ident, $refuse:ident) => {
        fn $name(e: $m::Curve, k: u64) {
            let g = e.get_generator();
            let s = e.new_scalar(BigInt::from(k));
            let t = e.new_scalar(-BigInt::from(k) * 7);
            let mut q = &g * &s + &t * &g - &g;
            let o = &q - &q;
            let _ = (o.is_zero(), o == q, e.is_on_curve(&q), q.to_string(), e.to_string(), s.to_string());
            q.normalize();
            let _ = (q.encode(true), o.encode(false), (&s * &t / &s).to_bytes_be(), s.iter_rl().count());
            let e2 = e.clone();
            drop(e);
            let _ = e2.get_field().one();
            drop(e2);
            let _ = q; // the last owner of the curve
        }
        fn $dec(e: $m::Curve, k: u64) {
            let g = e.get_generator();
            for c in [false, true] {
                let b = g.encode(c);
                let d = e.decode(&b).unwrap();
                let _ = d == g;
                let mut bad = b.clone();
                let i = (k as usize) % bad.len();
                bad[i] ^= 1 << (k % 8);
                let _ = e.decode(&bad).is_ok();
                let _ = e.decode(&bad[1..]).is_ok();
            }
            let _ = (e.decode(&[]).is_err(), e.decode(&[0]).is_ok(), e.decode(&vec![0xff; g.encode(true).len()]).is_ok());
        }
        fn $refuse(e: $m::Curve, other: $m::Curve, k: u64) {
            let f = e.get_field();
            let _ = quiet(|| e.new_point(f.from(2), f.elt(BigInt::from(k))));
            let _ = quiet(|| e.get_generator() + other.get_generator());
            let _ = quiet(|| e.get_generator() * other.new_scalar(BigInt::from(k)));
            let _ = quiet(|| f.one() + other.get_field().one());
            let _ = quiet(|| 7u32 / &f.one());
            let _ = e.get_generator() == other.get_generator();
        }
    };
}
curve_steps!(weierstrass, w_ops, w_dec, w_ref);
curve_steps!(montgomery, m_ops, m_dec, m_ref);
curve_steps!(edwards, e_ops, e_dec, e_ref);

fn contended(f: Fp, k: u64) {
    let hs: Vec<_> = (0..4)
        .map(|i| {
            let g = f.clone();
            std::thread::spawn(move || {
                let a = g.elt(BigInt::from(k + i));
                (&a * &a).sqrt()
            })
        })
        .collect();
    drop(f);
    let r: Vec<FpElt> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let _ = r[0] == r[1];
}

/// (name, the parameters differ between cycles, cycles at the first checkpoint, step)
pub fn histories() -> Vec<(&'static str, usize, Step)> {
    vec![
        ("prime field, p = 3 mod 4: arithmetic", 40, |i| drop(fp_basic(&i.p3, i.k))),
        ("prime field, p = 5 mod 8: arithmetic", 40, |i| drop(fp_basic(&i.p5, i.k))),
        ("prime field, p = 3 mod 4: square roots", 40, |i| {
            let a = fp_basic(&i.p3, i.k);
            let r = (&a * &a).sqrt();
            let _ = (&r * &r == &a * &a, (-&a).sqrt(), r.sqrt());
        }),
        ("prime field, p = 5 mod 8: square roots", 40, |i| {
            let a = fp_basic(&i.p5, i.k);
            let r = (&a * &a).sqrt();
            let _ = (&r * &r == &a * &a, (-&a).sqrt(), r.sqrt());
        }),
        ("one fixed field, p = 5 mod 8: square roots", 40, |i| {
            let f = Fp::new((BigUint::from(1u32) << 255usize) - 19u32);
            let _ = f.elt(BigInt::from(i.k)).sqrt();
        }),
        ("prime fields: square roots by contending threads", 24, |i| {
            contended(Fp::new(i.p5.clone()), i.k);
            contended(Fp::new(i.p3.clone()), i.k);
        }),
        ("quadratic extension: arithmetic", 40, |i| drop(fp2_basic(&i.p3, i.k))),
        ("quadratic extension: square roots", 20, |i| {
            let a = fp2_basic(&i.p3, i.k);
            let r = (&a * &a).sqrt();
            let _ = (&r * &r == &a * &a, a.sqrt());
        }),
        ("Weierstrass curve: points and scalars", 8, |i| {
            w_ops(ins::P256.get(), i.k);
            w_ops(ins::SECP256K1_3ISO.get(), i.k);
        }),
        ("Montgomery curves: points and scalars", 8, |i| {
            m_ops(ins::CURVE25519.get(), i.k);
            m_ops(ins::CURVE448.get(), i.k);
        }),
        ("Edwards curves: points and scalars", 8, |i| {
            e_ops(ins::EDWARDS25519.get(), i.k);
            e_ops(ins::EDWARDS448.get(), i.k);
        }),
        ("Weierstrass curves: decoding", 8, |i| {
            w_dec(ins::P256.get(), i.k);
            w_dec(ins::BLS12381G1.get(), i.k);
        }),
        ("Montgomery curves: decoding", 8, |i| {
            m_dec(ins::CURVE25519.get(), i.k);
            m_dec(ins::CURVE448.get(), i.k);
        }),
        ("Edwards curves: decoding", 8, |i| {
            e_dec(ins::EDWARDS25519.get(), i.k);
            e_dec(ins::EDWARDS448.get(), i.k);
        }),
        ("refused operations", 12, |i| {
            w_ref(ins::P256.get(), ins::P384.get(), i.k);
            m_ref(ins::CURVE25519.get(), ins::CURVE448.get(), i.k);
            e_ref(ins::EDWARDS25519.get(), ins::EDWARDS448.get(), i.k);
        }),
        ("SSWU and SvdW maps", 6, |i| {
            let e = ins::P256.get();
            let f = e.get_field();
            let u = f.elt(BigInt::from(i.k));
            let m = weierstrass::SSWU::new(e.clone(), f.from(-10));
            let n = weierstrass::SVDW::new(e, f.from(-3));
            let _ = (m.map(&u), n.map(&u), m.map(&f.zero()));
        }),
        ("isogeny variant of SSWU", 6, |i| {
            let e = ins::SECP256K1.get();
            let f = e.get_field();
            let iso = ins::get_isogeny_secp256k1();
            let _ = iso.push(iso.domain().get_generator());
            let m = weierstrass::SSWUAB0::new(e, f.from(-11), Box::new(iso));
            let _ = m.map(&f.elt(BigInt::from(i.k)));
        }),
        ("isogeny variant of SSWU for BLS12-381", 4, |i| {
            let e = ins::BLS12381G1.get();
            let f = e.get_field();
            let m = weierstrass::SSWUAB0::new(e, f.from(11), Box::new(ins::get_isogeny_bls12381g1()));
            let _ = m.map(&f.elt(BigInt::from(i.k)));
        }),
        ("Elligator 2 on Montgomery curves", 6, |i| {
            for (e, z) in [(ins::CURVE25519.get(), 2), (ins::CURVE448.get(), -1)] {
                let f = e.get_field();
                let m = montgomery::Ell2::new(e, f.from(z));
                let _ = (m.map(&f.elt(BigInt::from(i.k))), m.map(&f.zero()));
            }
        }),
        ("Elligator 2 on Edwards curves", 6, |i| {
            let e = ins::EDWARDS25519.get();
            let f = e.get_field();
            let m = edwards::Ell2::new(e, f.from(2), Some(Box::new(ins::edwards25519_to_curve25519())));
            let _ = m.map(&f.elt(BigInt::from(i.k)));
            let e = ins::EDWARDS448.get();
            let f = e.get_field();
            let m = edwards::Ell2::new(e, f.from(-1), Some(Box::new(ins::edwards448_to_curve448())));
            let _ = m.map(&f.elt(BigInt::from(i.k)));
        }),
        ("rational maps", 6, |i| {
            let r = ins::edwards25519_to_curve25519();
            let g = r.domain().get_generator();
            let _ = r.pull(r.push(&g * r.domain().new_scalar(BigInt::from(i.k))));
            let r = ins::edwards448_to_curve448();
            let _ = r.pull(r.push(r.domain().get_generator()));
            let _ = (r.push(r.domain().identity()), r.pull(r.codomain().identity()));
        }),
        ("refused map parameters", 12, |i| {
            let e = ins::P256.get();
            let f = e.get_field();
            let _ = quiet(|| weierstrass::SSWU::new(e.clone(), f.from(4)));
            let _ = quiet(|| weierstrass::SSWU::new(ins::SECP256K1.get(), ins::SECP256K1.get().get_field().elt(BigInt::from(i.k))));
            let _ = quiet(|| weierstrass::SVDW::new(e.clone(), f.zero()));
            let _ = quiet(|| montgomery::Ell2::new(ins::CURVE25519.get(), ins::CURVE25519.get().get_field().from(4)));
        }),
    ]
}
