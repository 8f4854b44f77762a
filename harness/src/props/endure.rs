//! Endurance: one handle asked the same questions tens of thousands of times. What
//! it answers first is judged by the other jobs; here every later answer (or
//! refusal) must be the first one.
use super::maps::{iso_target, lib_iso, rats, ISO};
use crate::cut::*;
use crate::gen::{self, big};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, RC, RP};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};

pub const JOB: &str = "for a long time";

/// A question: the number picks its operands; the answer is what a program sees.
type Ask = Box<dyn Fn(usize) -> Vec<u8>>;

struct Asks {
    v: Vec<(&'static str, usize, usize, Ask)>,
}

/// more often than a 16-bit count can tell
const LONG: usize = 66_500;
const MEDIUM: usize = 6_000;
const SHORT: usize = 700;

impl Asks {
    fn add(&mut self, what: &'static str, operands: usize, times: usize, f: impl Fn(usize) -> Vec<u8> + 'static) {
        self.v.push((what, operands, times, Box::new(f)));
    }
}

fn or_refused(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    guarded(f).unwrap_or_else(|_| b"refused".to_vec())
}

fn fp(a: &mut Asks, id: &str) {
    // small fields, and more elements of larger ones than a small table can remember
    let p61 = (BigUint::one() << 61) - 1u32;
    let p255 = (BigUint::one() << 255) - 19u32;
    for (p, n, scale) in [(big(13), 13, 1), (big(23), 23, 1), (p61, 4200, 1), (p255, 1100, 8)] {
        let f = Fp::new(p.clone());
        let v: Vec<FpElt> = (0..n as u32).map(|i| f.elt(bi(&(if p.bits() < 8 { big(i as u64) } else { big(3).modpow(&big(i as u64), &p) })))).collect();
        let nn = (n * n).min(4300);
        let long: usize = LONG / scale;
        let sq: Vec<FpElt> = v.iter().map(|x| x * x).collect();
        let at = move |i: usize| (i % n, i / n % n);
        let by = |x: &FpElt| x.to_bytes_be();
        match id {
            "C01" => {
                a.add("a+b", nn, long, { let v = v.clone(); move |i| by(&(&v[at(i).0] + &v[at(i).1])) });
                a.add("a-b", nn, long, { let v = v.clone(); move |i| by(&(&v[at(i).0] - &v[at(i).1])) });
                a.add("a*b", nn, long, { let v = v.clone(); move |i| by(&(&v[at(i).0] * &v[at(i).1])) });
                a.add("-a, a^2", n, long, move |i| [by(&-&v[i]), by(&(&v[i] ^ 2u32))].concat());
            }
            "C02" => {
                a.add("1/a", n, long, { let v = v.clone(); move |i| by(&(1u32 / &v[i])) });
                a.add("a/b", nn, long, { let v = v.clone(); move |i| by(&(&v[at(i).0] / &v[at(i).1])) });
                a.add("a^n", nn, long, { let v = v.clone(); move |i| by(&(&v[at(i).0] ^ &BigInt::from(at(i).1 as i64 - 9))) });
                a.add("a^n, unsigned", nn, long, move |i| by(&(&v[at(i).0] ^ &BigUint::from(at(i).1 as u64))));
            }
            "C03" => {
                a.add("is_square", n, long, { let v = v.clone(); move |i| vec![v[i].is_square() as u8] });
                a.add("sqrt", n, long, move |i| by(&sq[i].sqrt()));
            }
            "C04" => {
                a.add("elt", nn, long, { let f = f.clone(); move |i| by(&f.elt(BigInt::from(i as i64 - 99))) });
                a.add("from text", nn, long, { let f = f.clone(); move |i| by(&f.from(format!("{}", i as i64 - 99).as_str())) });
                a.add("from octets", nn, long, { let f = f.clone(); move |i| {
                    let b = [at(i).0 as u8, at(i).1 as u8];
                    [f.from_bytes_be(&b), f.from_bytes_le(&b)].iter().flat_map(|r| r.as_ref().map_or(vec![77], by)).collect()
                } });
                a.add("to octets", n, long, move |i| [v[i].to_bytes_be(), v[i].to_bytes_le()].concat());
            }
            "C07" => a.add("sgn0", n, long, move |i| vec![v[i].sgn0() as u8]),
            "C23" => {
                let w = Fp::new(&p + 6u32).elt(BigInt::from(3));
                a.add("a foreign sum", n, long, { let (v, w) = (v.clone(), w.clone()); move |i| or_refused(|| by(&(&v[i] + &w))) });
                a.add("a foreign product", n, long, { let (v, w) = (v.clone(), w.clone()); move |i| or_refused(|| by(&(&w * &v[i]))) });
                a.add("equality with a foreign element", n, long, { let (v, w) = (v.clone(), w.clone()); move |i| vec![(v[i] == w) as u8] });
                a.add("2/a", n, long, { let v = v.clone(); move |i| or_refused(|| by(&(2u32 / &v[i]))) });
                a.add("a^3u32", n, long, { let v = v.clone(); move |i| or_refused(|| by(&(&v[i] ^ 3u32))) });
                let (f, f2) = (f.clone(), Fp::new(&p + 6u32));
                let same = Fp::new(p.clone());
                a.add("field equality", 3, long, move |i| vec![match i { 0 => f == f2, 1 => f == same, _ => f2 == same } as u8]);
            }
            "C27" => {
                a.add("clone", n, long, { let v = v.clone(); move |i| by(&v[i].clone()) });
                a.add("a+b by value", nn, long, { let v = v.clone(); move |i| by(&(v[at(i).0].clone() + v[at(i).1].clone())) });
                a.add("a*a", n, long, { let v = v.clone(); move |i| by(&(&v[i] * &v[i])) });
                a.add("a - its clone, a / its clone", n, long, move |i| [by(&(&v[i] - v[i].clone())), by(&(&v[i] / &v[i].clone()))].concat());
            }
            "C29" => {
                a.add("zero, one, modulus, size", 1, long, { let f = f.clone(); move |_| {
                    [by(&f.zero()), by(&f.one()), f.get_modulus().to_string().into_bytes(), vec![f.size_bytes() as u8]].concat()
                } });
                a.add("is_zero", n, long, { let v = v.clone(); move |i| vec![Zero::is_zero(&v[i]) as u8, One::is_one(&v[i]) as u8] });
                a.add("cmov", nn, long, { let v = v.clone(); move |i| [by(&FpElt::cmov(&v[at(i).0], &v[at(i).1], true)), by(&FpElt::cmov(&v[at(i).0], &v[at(i).1], false))].concat() });
                a.add("a clone of the field", 1, long, move |_| by(&f.clone().one()));
            }
            "C32" => {
                a.add("malformed text", 3, long, { let f = f.clone(); move |i| or_refused(|| by(&f.from(["zz", "0x", "-"][i]))) });
                a.add("root of a non-square", n, long, { let (v, f) = (v.clone(), f.clone()); move |i| {
                    drop(guarded(|| f.elt(BigInt::from(2)).sqrt()));
                    vec![v[i].is_square() as u8]
                } });
            }
            _ => {}
        }
    }
}

fn fp2(a: &mut Asks, id: &str) {
    for p in [7u64, 23] {
        let f = Fp2::new(big(p));
        let v: Vec<Fp2Elt> = (0..30u64).map(|i| FromFactory::from(&f, format!("{},{}", i % p, (i * i + i / 5) % p).as_str())).collect();
        let n = v.len();
        let nn = n * n;
        let sq: Vec<Fp2Elt> = v.iter().map(|x| x * x).collect();
        let at = move |i: usize| (i % n, i / n % n);
        let by = |x: &Fp2Elt| x.to_bytes_be();
        match id {
            "C04" => {
                a.add("extension to octets and back", n, LONG, move |i| {
                    let b = v[i].to_bytes_le();
                    let x = f.from_bytes_le(&b).map_or(vec![77], |x| by(&x));
                    [b, x].concat()
                });
            }
            "C05" => {
                a.add("u+v", nn, LONG, { let v = v.clone(); move |i| by(&(&v[at(i).0] + &v[at(i).1])) });
                a.add("u-v", nn, LONG, { let v = v.clone(); move |i| by(&(&v[at(i).0] - &v[at(i).1])) });
                a.add("u*v", nn, LONG, { let v = v.clone(); move |i| by(&(&v[at(i).0] * &v[at(i).1])) });
                a.add("u/v", nn, LONG, { let v = v.clone(); move |i| by(&(&v[at(i).0] / &v[at(i).1])) });
                a.add("1/u, -u, u^2", n, LONG, { let v = v.clone(); move |i| [by(&(1u32 / &v[i])), by(&-&v[i]), by(&(&v[i] ^ 2u32))].concat() });
                a.add("u^n", nn, LONG, move |i| by(&(&v[at(i).0] ^ &BigInt::from(at(i).1 as i64 - 9))));
            }
            "C06" => {
                a.add("is_square", n, LONG, { let v = v.clone(); move |i| vec![v[i].is_square() as u8] });
                a.add("sqrt", n, LONG, move |i| by(&sq[i].sqrt()));
            }
            "C07" => a.add("sgn0 in an extension", n, LONG, move |i| vec![v[i].sgn0() as u8]),
            "C29" => a.add("extension's zero and one", n, LONG, move |i| {
                [by(&f.zero()), by(&f.one()), vec![Zero::is_zero(&v[i]) as u8, One::is_one(&v[i]) as u8]].concat()
            }),
            "C32" => a.add("malformed pair", 3, LONG, move |i| or_refused(|| by(&FromFactory::from(&f, ["5", "1,zz", ""][i])))),
            _ => {}
        }
    }
}

fn curve<C: Cut>(ctx: &Ctx, a: &mut Asks, id: &str) -> R {
    let law = match C::KIND {
        Kind::W => "C09",
        Kind::M => "C10",
        Kind::E => "C11",
    };
    for (k, p) in [(0, 23u64), (1, 13)] {
        let Some(rc) = tiny_sample(C::KIND, p, 3, 5 + k).pop() else { continue };
        let c = Crv::<C>::new(ctx, &rc)?;
        let rps: Vec<RP> = rc.enumerate();
        let mut v: Vec<C::P> = vec![];
        for rp in &rps {
            v.push(c.pt(ctx, rp)?);
        }
        let n = v.len();
        let nn = n * n;
        let at = move |i: usize| (i % n, i / n % n);
        let e = c.e.clone();
        let r = rc.r.clone();
        let words: Vec<Vec<u8>> = rps.iter().flat_map(|q| [rc.encode(q, true), rc.encode(q, false)]).collect();
        let junk: Vec<Vec<u8>> = (0..40u8).flat_map(|i| [vec![i], vec![2 + (i & 1), i], vec![4, i, i ^ 5], vec![0, i]]).collect();
        let by = |q: &C::P| q.encode(false);
        let f = c.f.clone();
        let xy = move |i: usize| (f.elt(BigInt::from(i as u64 % p)), f.elt(BigInt::from(i as u64 / p % p)));
        let pp = (p * p) as usize;
        let ks: Vec<C::S> = (0..40).map(|i| e.new_scalar(BigInt::from(i - 7))).collect();
        let sb = |s: &C::S| s.to_bytes_be();
        if id == law {
            a.add("P+Q", nn, LONG, { let v = v.clone(); move |i| by(&C::add(i & 3, &v[at(i).0], &v[at(i).1])) });
            a.add("P-Q, -P", nn, LONG, { let v = v.clone(); move |i| [by(&C::sub(i & 3, &v[at(i).0], &v[at(i).1])), by(&C::neg(i & 1, &v[at(i).0]))].concat() });
            a.add("P+P", n, LONG, { let v = v.clone(); move |i| by(&C::add(1, &v[i], &v[i])) });
        }
        match id {
            "C08" => {
                let nk = ks.len();
                a.add("scalar ops", nk * nk, LONG, { let ks = ks.clone(); move |i| {
                    let (s, t) = (&ks[i % nk], &ks[i / nk]);
                    [sb(&C::sadd(i & 3, s, t)), sb(&C::ssub(i & 3, s, t)), sb(&C::smul(i & 3, s, t)), sb(&C::sneg(0, s))].concat()
                } });
                a.add("scalar inverse", nk, LONG, { let ks = ks.clone(); move |i| or_refused(|| [sb(&C::sinv(1, &ks[i])), sb(&C::sdiv(0, &ks[1], &ks[i]))].concat()) });
                a.add("scalar bits", nk, LONG, { let ks = ks.clone(); move |i| C::bits_lr(&ks[i]).into_iter().chain(C::bits_rl(&ks[i])).map(|b| b as u8).collect() });
                a.add("new scalar", 99, LONG, { let e = e.clone(); move |i| { let s = e.new_scalar(BigInt::from(i as i64 - 50)); [s.to_bytes_be(), s.to_bytes_le()].concat() } });
            }
            "C12" => a.add("k*P", n * 40, LONG / 2, { let (v, ks) = (v.clone(), ks.clone()); move |i| by(&C::mul(i % 7, &v[i % n], &ks[i / n])) }),
            "C13" => {
                a.add("new point", pp, LONG, { let (e, xy) = (e.clone(), xy.clone()); move |i| { let (x, y) = xy(i); or_refused(|| by(&e.new_point(x, y))) } });
                a.add("membership", n, LONG, { let (e, v) = (e.clone(), v.clone()); move |i| vec![e.is_on_curve(&v[i]) as u8] });
            }
            "C14" => {
                let vs: Vec<C::P> = v.iter().map(|q| C::sub(0, &C::add(0, q, &v[n - 1]), &v[n - 1])).collect();
                a.add("identity and torsion tests", n, LONG, { let vs = vs.clone(); move |i| vec![vs[i].is_zero() as u8, C::two_torsion(&vs[i]).map_or(7, |b| b as u8)] });
                a.add("point equality", nn, LONG, { let (v, vs) = (v.clone(), vs.clone()); move |i| vec![(v[at(i).0] == vs[at(i).1]) as u8] });
                a.add("normalisation", n, LONG, move |i| { let mut q = vs[i].clone(); C::normalize(&mut q); by(&q) });
            }
            "C15" => {
                a.add("encode", n, LONG, { let v = v.clone(); move |i| [v[i].encode(true), v[i].encode(false)].concat() });
                a.add("decode", words.len(), LONG, { let (e, words) = (e.clone(), words.clone()); move |i| e.decode(&words[i]).map_or(vec![], |q| by(&q)) });
            }
            "C16" => a.add("decode anything", junk.len(), LONG, { let (e, junk) = (e.clone(), junk.clone()); move |i| e.decode(&junk[i]).map_or(vec![], |q| by(&q)) }),
            "C22" => a.add("generator, order, cofactor", 1, LONG, { let e = e.clone(); move |_| {
                [by(&e.get_generator()), e.get_order().to_bytes_be(), e.get_cofactor().to_signed_bytes_be(), by(&e.identity())].concat()
            } }),
            "C23" => {
                let Some(r2) = tiny_sample(C::KIND, 19, 1, 9).pop() else { continue };
                let c2 = Crv::<C>::new(ctx, &r2)?;
                let g2 = c2.e.get_generator();
                let k2 = C::snew(BigInt::from(2), &(&r + 1u32));
                a.add("a foreign point", n, LONG, { let (v, g2) = (v.clone(), g2.clone()); move |i| or_refused(|| by(&C::add(i & 3, &v[i], &g2))) });
                a.add("a foreign scalar", n, LONG, { let (v, k2) = (v.clone(), k2.clone()); move |i| or_refused(|| by(&C::mul(i % 7, &v[i], &k2))) });
                a.add("scalars of two orders", 40, LONG, { let ks = ks.clone(); move |i| or_refused(|| sb(&C::sadd(0, &ks[i], &k2))) });
                a.add("curve equality", 2, LONG, { let e = e.clone(); move |i| vec![if i == 0 { e == c2.e } else { e == e.clone() } as u8] });
            }
            "C27" => {
                a.add("P+P, P-P of clones", n, LONG, { let v = v.clone(); move |i| [by(&C::add(0, &v[i], &v[i].clone())), by(&C::sub(3, &v[i].clone(), &v[i]))].concat() });
                a.add("a clone of the curve", 1, LONG, { let e = e.clone(); move |_| by(&e.clone().get_generator()) });
            }
            "C30" => a.add("a curve from its block", 1, MEDIUM, { let rc = rc.clone(); move |_| { let e = C::custom(&rc); [by(&e.get_generator()), e.get_order().to_bytes_be()].concat() } }),
            "C31" => a.add("key agreement", 40 * 40, LONG / 4, { let (ks, e) = (ks.clone(), e.clone()); move |i| {
                let g = e.get_generator();
                let (x, y) = (&ks[i % 40], &ks[i / 40]);
                [by(&C::mul(0, &C::mul(1, &g, x), y)), by(&C::mul(2, &C::mul(3, &g, y), x))].concat()
            } }),
            "C32" => {
                a.add("off the curve", pp, LONG, { let (e, v, xy) = (e.clone(), v.clone(), xy.clone()); move |i| {
                    let (x, y) = xy(i);
                    let q = or_refused(|| by(&e.new_point(x, y)));
                    [q, by(&C::add(0, &v[i % n], &v[0]))].concat()
                } });
                a.add("refused octets", junk.len(), LONG, { let (e, junk) = (e.clone(), junk.clone()); move |i| e.decode(&junk[i]).map_or(vec![], |q| by(&q)) });
                let k2 = C::snew(BigInt::from(2), &(&r + 1u32));
                a.add("refused products", n, LONG, { let (v, ks) = (v.clone(), ks.clone()); move |i| [or_refused(|| by(&C::mul(0, &v[i], &k2))), or_refused(|| sb(&C::sinv(2, &ks[9])))].concat() });
                let mut sp = Spelling::of(&rc);
                sp.gy = "zz";
                a.add("malformed blocks", 1, LONG / 4, move |_| or_refused(|| by(&C::spelled(&sp).get_generator())));
            }
            _ => {}
        }
    }
    if id == "C22" {
        let named: Vec<RC> = named_rcs(C::KIND);
        let n = named.len();
        a.add("named curves", n, SHORT, move |i| {
            let (e, name) = C::named(named[i].name).unwrap();
            [e.get_generator().encode(false), e.get_order().to_bytes_be(), name.into_bytes(), format!("{e}").into_bytes()].concat()
        });
    }
    Ok(())
}

fn maps(ctx: &mut Ctx, a: &mut Asks, id: &str) -> R {
    let p = 23u64;
    let f = Fp::new(big(p));
    let all = |k: Kind| -> Vec<RC> { tiny_sample(k, p, 6, 77).into_iter().filter(|rc| !rc.a.is_zero() && !rc.b.is_zero()).collect() };
    let z = |i: u64| f.elt(BigInt::from(i));
    let us: Vec<FpElt> = (0..p).map(z).collect();
    macro_rules! tiny {
        ($id:literal, $cut:ident, $new:expr, $name:literal) => {
            if id == $id || id == "C26" || id == "C32" {
                for rc in all($cut::KIND).into_iter().take(2) {
                    let c = Crv::<$cut>::new(ctx, &rc)?;
                    let e = c.e.clone();
                    let Some(zi) = (1..p).find(|i| guarded(|| drop($new(e.clone(), c.f.elt(BigInt::from(*i))))).is_ok()) else { continue };
                    let m = $new(e.clone(), c.f.elt(BigInt::from(zi)));
                    let us = us.clone();
                    if id == $id {
                        a.add(concat!($name, " map"), us.len(), LONG, move |i| m.map(&us[i]).encode(false));
                    } else {
                        let f = c.f.clone();
                        a.add(concat!($name, " construction"), p as usize, LONG / 2, move |i| {
                            let got = or_refused(|| { drop($new(e.clone(), f.elt(BigInt::from(i)))); vec![1] });
                            [got, if id_maps(i) { m.map(&us[i]).encode(false) } else { vec![] }].concat()
                        });
                    }
                }
            }
        };
    }
    fn id_maps(i: usize) -> bool {
        i % 4 == 1
    }
    tiny!("C17", W, weierstrass::SSWU::new, "SSWU");
    tiny!("C18", W, |e, z| weierstrass::SVDW::new(e, z), "SvdW");
    tiny!("C19", M, montgomery::Ell2::new, "Elligator 2");
    if id == "C17" || id == "C26" {
        for name in ISO {
            let (r0, r1) = (crate::named::rc(name), crate::named::rc(iso_target(name)));
            let z = r0.f.small(if name == "secp256k1_3iso" { -11 } else { 11 });
            let c1 = Crv::<W>::new(ctx, &r1)?;
            let us: Vec<FpElt> = (0..5).map(|_| c1.fe(&gen::elt(&mut ctx.rng, &r1.f.p))).collect();
            let (z, e) = (c1.fe(&z), c1.e.clone());
            a.add("isogenous SSWU", 5, SHORT / 2, move |i| weierstrass::SSWUAB0::new(e.clone(), z.clone(), lib_iso(name)).map(&us[i]).encode(false));
        }
    }
    for rat in rats() {
        let (re, rm) = (crate::named::rc(rat.ed), crate::named::rc(rat.mt));
        let (ce, cm) = (Crv::<E>::new(ctx, &re)?, Crv::<M>::new(ctx, &rm)?);
        if id == "C20" {
            let mut es = vec![ce.e.identity()];
            let mut ms = vec![cm.e.identity()];
            for _ in 0..5 {
                let (x, y) = (rand_point(&re, &mut ctx.rng), rand_point(&rm, &mut ctx.rng));
                es.push(ce.pt(ctx, &x)?);
                ms.push(cm.pt(ctx, &y)?);
            }
            let (m1, m2) = (rat.lib(), rat.lib());
            a.add("push", 6, MEDIUM, move |i| m1.push(es[i].clone()).encode(false));
            a.add("pull", 6, MEDIUM, move |i| m2.pull(ms[i].clone()).encode(false));
        }
        if id == "C19" || id == "C26" {
            let z = cm.fe(&super::maps::nonsquare(ctx, &rm.f));
            let us: Vec<FpElt> = (0..5).map(|_| ce.fe(&gen::elt(&mut ctx.rng, &re.f.p))).collect();
            let (e, other) = (ce.e.clone(), Crv::<E>::new(ctx, &crate::named::rc(if rat.name == "448" { "edwards25519" } else { "edwards448" }))?.e);
            a.add("Edwards Elligator 2", 5, SHORT, move |i| {
                let m = edwards::Ell2::new(e.clone(), z.clone(), Some(rat.lib()));
                let bad = or_refused(|| { drop(edwards::Ell2::new(other.clone(), z.clone(), Some(rat.lib()))); vec![] });
                [m.map(&us[i]).encode(false), bad].concat()
            });
        }
    }
    if id == "C21" {
        for name in ISO {
            let rc = crate::named::rc(name);
            let c = Crv::<W>::new(ctx, &rc)?;
            let mut ps = vec![c.e.identity(), c.e.get_generator()];
            for _ in 0..4 {
                let x = rand_point(&rc, &mut ctx.rng);
                ps.push(c.pt(ctx, &x)?);
            }
            let m = lib_iso(name);
            a.add("isogeny", 6, MEDIUM / 2, move |i| Isogeny::push(m.as_ref(), ps[i].clone()).encode(false));
        }
    }
    if id == "C22" {
        macro_rules! names {
            ($($n:ident),*) => { a.add("a named curve again and again", 1, MEDIUM, |_| { let mut v = vec![]; $(v.extend(ins::$n.get().get_order().to_bytes_be());)* v }) };
        }
        names!(P256, SECP256K1, CURVE25519, EDWARDS448);
    }
    Ok(())
}

fn asks(ctx: &mut Ctx, id: &str) -> R<Asks> {
    let mut a = Asks { v: vec![] };
    fp(&mut a, id);
    fp2(&mut a, id);
    curve::<W>(ctx, &mut a, id)?;
    curve::<M>(ctx, &mut a, id)?;
    curve::<E>(ctx, &mut a, id)?;
    maps(ctx, &mut a, id)?;
    Ok(a)
}

const CASES: u64 = 12;

pub fn job(pl: &mut Plan, th: bool, id: &'static str) {
    pl.must_hit.push("answers repeated");
    pl.job(JOB, CASES, move |ctx| {
        // every case builds the same questions and asks its share of them
        let a = match asks(ctx, id) {
            Ok(a) => a,
            Err(e) => return Err(e),
        };
        for (k, (what, n, times, ask)) in a.v.iter().enumerate() {
            if k as u64 % CASES != ctx.case {
                continue;
            }
            let times = if th { times * 4 } else { *times };
            let first: Vec<Result<Vec<u8>, String>> = (0..*n).map(|i| guarded(|| ask(i))).collect();
            let mut x = ctx.rng.u64() | 1;
            let mut bad = None;
            for t in 0..times {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                // every operand in turn, or any of them
                let i = if t & 64 == 0 { t % n } else { (x >> 33) as usize % n };
                let got = guarded(|| ask(i));
                let same = match (&got, &first[i]) {
                    (Ok(u), Ok(v)) => u == v,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    bad = Some((t, i, got));
                    break;
                }
            }
            ctx.hits("answers repeated", times as u64);
            ctx.seen(&[what.as_bytes(), &k.to_le_bytes()]);
            if let Some((t, i, got)) = bad {
                return fail(format!("{what} (operands {i}): asked for the {}th time, the answer is {got:x?} and was {:x?} at first", t + n + 1, first[i]));
            }
        }
        Ok(())
    });
}
