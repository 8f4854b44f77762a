//! prof digest|dump SEED SCALE [SECTION]: runs a seeded workload over the public
//! operations and records what a program can observe of each one (a value, an
//! error or a refusal). The same source is built in several profiles, under a
//! sanitizer and under Miri; the recorded transcripts have to be the same.
//!   digest: one line per section with the digest of its transcript
//!   dump:   the events of one section
//! Lines starting with ARITH report an operation on supported inputs that
//! overflowed or indexed out of range.
use num_bigint::{BigInt, BigUint};
use num_traits::One;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, IntoFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use vcore::cut::{self, Crv, Cut, E, M, W};
use vcore::gen::{self, big, Rng};
use vcore::mon::{fnv, guarded};
use vcore::refm::{Kind, RC, RP};

struct T {
    rng: Rng,
    scale: usize,
    dump: bool,
    digest: u64,
    events: u64,
    kinds: BTreeMap<&'static str, u64>,
    seen: HashSet<u64>,
    arith: Vec<String>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl T {
    fn log(&mut self, kind: &'static str, what: &str, out: &str) {
        let line = format!("{what} -> {kind} {out}");
        self.digest = fnv(format!("{:x}|{line}", self.digest).as_bytes());
        self.events += 1;
        *self.kinds.entry(kind).or_default() += 1;
        if self.seen.len() < 1 << 20 {
            self.seen.insert(fnv(line.as_bytes()));
        }
        if self.dump {
            let _ = writeln!(std::io::stdout(), "{}", line.replace('\n', " "));
        }
    }
    fn obs(&mut self, supported: bool, what: String, f: impl FnOnce() -> Result<String, String>) {
        match guarded(f) {
            Ok(Ok(v)) => self.log("value", &what, &v),
            Ok(Err(e)) => self.log("error", &what, &e),
            Err(p) => {
                // the text of a refusal is not part of the observation
                self.log("refused", &what, "");
                let bad = ["with overflow", "out of bounds", "out of range", "exceeds", "mid > len", "negative shift", "unsafe precondition"];
                if supported && bad.iter().any(|b| p.contains(b)) {
                    let what: String = what.chars().take(400).collect();
                    self.arith.push(format!("{what}: {p}"));
                }
            }
        }
    }
    /// an operation on inputs inside its documented domain
    fn sup(&mut self, what: String, f: impl FnOnce() -> String) {
        self.obs(true, what, || Ok(f()))
    }
    /// an operation which may refuse its inputs
    fn may(&mut self, what: String, f: impl FnOnce() -> String) {
        self.obs(false, what, || Ok(f()))
    }
}

fn sfp(e: &FpElt) -> String {
    format!("{e} {}", hex(&e.to_bytes_be()))
}
fn sfp2(e: &Fp2Elt) -> String {
    format!("{e} {}", hex(&e.to_bytes_le()))
}

/// numerals of every radix, sign and width
fn numerals(rng: &mut Rng, v: &BigUint) -> Vec<String> {
    let pad = "0".repeat(rng.below(40));
    let s = if rng.bool() { "-" } else { "" };
    vec![
        format!("{s}{pad}{v}"),
        format!("{s}0x{pad}{v:x}"),
        format!("{s}0x{v:X}"),
        format!("{s}0o{pad}{v:o}"),
        format!("{s}0b{pad}{v:b}"),
    ]
}

macro_rules! field_section {
    ($t:ident, $f:ident, $show:ident, $elt:expr, $n:expr, $sqrt:expr, $lens:expr) => {{
        let f = &$f;
        let p = f.get_modulus().to_biguint().unwrap();
        $t.sup("field".into(), || format!("{f} {} {} {}", f.get_modulus(), f.size_bytes(), $show(&f.zero())));
        let mut es = vec![f.zero(), f.one(), f.elt(BigInt::from(-1)), f.elt(BigInt::from(p.clone()) / 2)];
        for _ in 0..$n {
            es.push($elt(f, &mut $t.rng, &p));
        }
        for i in 0..es.len() {
            let (a, b) = (es[i].clone(), es[$t.rng.below(es.len())].clone());
            let w = |o: &str| format!("[p={p}] {} {o} {}", $show(&a), $show(&b));
            $t.sup(w("+"), || format!("{} {}", $show(&(&a + &b)), $show(&(a.clone() + b.clone()))));
            $t.sup(w("-"), || format!("{} {}", $show(&(&a - &b)), $show(&(a.clone() - &b))));
            $t.sup(w("*"), || format!("{} {}", $show(&(&a * &b)), $show(&(&a * b.clone()))));
            $t.sup(w("/"), || $show(&(&a / &b)));
            $t.sup(w("neg, 1/, ^2"), || format!("{} {} {} {}", $show(&-&a), $show(&(1u32 / &a)), $show(&(&a ^ 2u32)), $show(&(&a ^ -1i32))));
            $t.sup(w("=="), || format!("{} {}", a == b, a == a.clone()));
            $t.sup(w("cmov"), || format!("{} {}", $show(&CMov::cmov(&a, &b, true)), $show(&CMov::cmov(&a, &b, false))));
            $t.sup(w("sgn0"), || format!("{}", a.sgn0()));
            $t.sup(w("is_zero is_one"), || format!("{} {}", num_traits::Zero::is_zero(&a), num_traits::One::is_one(&a)));
            $t.sup(w("set"), || {
                let (mut c, mut d) = (a.clone(), b.clone());
                num_traits::Zero::set_zero(&mut c);
                num_traits::One::set_one(&mut d);
                format!("{} {}", $show(&c), $show(&d))
            });
            $t.sup(w("is_square"), || format!("{}", a.is_square()));
            if $sqrt {
                $t.sup(w("sqrt"), || $show(&a.sqrt()));
                $t.sup(w("sqrt of square"), || $show(&(&a * &a).sqrt()));
            }
            let eb = 1 + $t.rng.below(2 * p.bits() as usize + 70);
            let e = gen::pattern(&mut $t.rng, eb);
            $t.sup(w(&format!("^ {e}")), || $show(&(&a ^ &e)));
            let e = BigInt::from(e) * if $t.rng.bool() { -1 } else { 1 };
            $t.sup(w(&format!("^ {e}")), || $show(&(&a ^ &e)));
            for e in [0i32, 1, 2, -2, i32::MAX, i32::MIN] {
                $t.may(w(&format!("^ {e}i32")), || $show(&(&a ^ e)));
            }
            for e in [0u32, 1, 3, u32::MAX] {
                $t.may(w(&format!("^ {e}u32")), || $show(&(&a ^ e)));
                $t.may(w(&format!("{e}/")), || $show(&(e / &a)));
            }
            $t.sup(w("bytes"), || format!("{} {}", hex(&a.to_bytes_be()), hex(&a.to_bytes_le())));
            let (be, le) = (a.to_bytes_be(), a.to_bytes_le());
            $t.obs(true, w("back from bytes"), || {
                let x = f.from_bytes_be(&be).map_err(|e| e.to_string())?;
                let y = f.from_bytes_le(&le).map_err(|e| e.to_string())?;
                Ok(format!("{} {}", $show(&x), $show(&y)))
            });
            let v: BigInt = gen::int(&mut $t.rng, &p);
            $t.sup(format!("[p={p}] elt {v}"), || $show(&f.elt(v.clone())));
        }
        macro_rules! prim {
            ($v:expr) => {{
                let v = $v;
                $t.sup(format!("[p={p}] from {v} {}", std::any::type_name_of_val(&v)), || format!("{} {}", $show(&f.from(v)), $show(&v.lift(f))));
            }};
        }
        prim!(0u8); prim!(255u8); prim!(u16::MAX); prim!(u32::MAX); prim!(1u32 << 31); prim!(u64::MAX); prim!(1u64 << 63);
        prim!(i8::MIN); prim!(i8::MAX); prim!(-1i8); prim!(i16::MIN); prim!(i32::MIN); prim!(i32::MAX); prim!(i64::MIN); prim!(i64::MAX); prim!(-1i64);
        for l in $lens {
            for fill in 0..3 {
                let b: Vec<u8> = match fill {
                    0 => vec![0; l],
                    1 => vec![255; l],
                    _ => $t.rng.bytes(l),
                };
                $t.obs(true, format!("[p={p}] from_bytes {}", hex(&b)), || {
                    let x = f.from_bytes_be(&b).map_err(|e| e.to_string())?;
                    let y = f.from_bytes_le(&b).map_err(|e| e.to_string())?;
                    Ok(format!("{} {}", $show(&x), $show(&y)))
                });
            }
        }
    }};
}

fn primes(rng: &mut Rng, ok: impl Fn(u32) -> bool, n: usize) -> Vec<BigUint> {
    let mut v: Vec<BigUint> = gen::small_primes(40).into_iter().map(big).filter(|p| *p > big(2) && ok(gen::m8(p))).collect();
    v.extend(gen::special_primes().into_iter().filter(|p| *p > big(2) && ok(gen::m8(p))));
    for i in 0..n {
        let bits = 6 + rng.below(60 + 40 * (i + 1));
        let r = gen::rand_prime(rng, bits, |m| m % 2 == 1 && ok(m));
        v.push(r);
    }
    v
}

fn fp(t: &mut T, p: &BigUint) {
    let f = Fp::new(p.clone());
    let sqrt = gen::m8(p) != 1;
    let size = (p.bits() as usize).div_ceil(8);
    let elt = |f: &Fp, rng: &mut Rng, p: &BigUint| f.elt(cut::bi(&gen::elt(rng, p)));
    let n = 6 * t.scale;
    field_section!(t, f, sfp, elt, n, sqrt, [0, 1, size.saturating_sub(1), size, size + 1, 2 * size, 3 * size + 5]);
    for _ in 0..t.scale * 4 {
        let nb = 1 + t.rng.below(p.bits() as usize + 70);
        let v = gen::pattern(&mut t.rng, nb);
        for s in numerals(&mut t.rng, &v) {
            t.sup(format!("[p={p}] parse {s}"), || sfp(&f.from(s.as_str())));
        }
    }
}

fn fp2(t: &mut T, p: &BigUint) {
    let f = Fp2::new(p.clone());
    let size = (p.bits() as usize).div_ceil(8);
    let elt = |f: &Fp2, rng: &mut Rng, p: &BigUint| {
        let (a, b) = (gen::elt(rng, p), gen::elt(rng, p));
        FromFactory::from(f, format!("{a},{b}").as_str())
    };
    let n = 4 * t.scale;
    field_section!(t, f, sfp2, elt, n, true, [0, 1, size, 2 * size - 1, 2 * size, 2 * size + 1, 4 * size]);
    for _ in 0..t.scale * 2 {
        let nb = 1 + t.rng.below(p.bits() as usize + 70);
        let (v, w) = (gen::pattern(&mut t.rng, nb), gen::pattern(&mut t.rng, nb));
        let (v, w) = (numerals(&mut t.rng, &v), numerals(&mut t.rng, &w));
        for (a, b) in v.iter().zip(w.iter().rev()) {
            t.sup(format!("[p={p}] parse {a},{b}"), || sfp2(&f.from(format!("{a},{b}").as_str())));
        }
    }
}

/// everything a program can see of a point
fn sp<C: Cut>(p: &C::P) -> String {
    let mut n = p.clone();
    C::normalize(&mut n);
    format!("{} {} {} {p} / {n} {:?}", hex(&p.encode(false)), hex(&p.encode(true)), p.is_zero(), C::two_torsion(p))
}

fn ss<C: Cut>(s: &C::S) -> String {
    let bits = |v: Vec<bool>| v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
    format!("{s} {} {} {} {}", hex(&s.to_bytes_be()), hex(&s.to_bytes_le()), bits(C::bits_lr(s)), bits(C::bits_rl(s)))
}

fn scalars<C: Cut>(t: &mut T, r: &BigUint) {
    let mut ks: Vec<BigInt> = [0i32, 1, 2, -1, -2].iter().map(|k| BigInt::from(*k)).collect();
    ks.push(cut::bi(r));
    ks.push(cut::bi(r) - 1);
    ks.push(cut::bi(r) + 1);
    for _ in 0..t.scale * 8 {
        ks.push(cut::scalar_int(&mut t.rng, r));
    }
    let s: Vec<C::S> = ks.iter().map(|k| C::snew(k.clone(), r)).collect();
    for i in 0..s.len() {
        let j = t.rng.below(s.len());
        let (a, b) = (&s[i], &s[j]);
        let w = |o: &str| format!("[{:?} r={r}] {} {o} {}", C::KIND, ks[i], ks[j]);
        t.sup(w("scalar"), || ss::<C>(a));
        for form in 0..4 {
            t.sup(w("+"), || ss::<C>(&C::sadd(form, a, b)));
            t.sup(w("-"), || ss::<C>(&C::ssub(form, a, b)));
            t.sup(w("*"), || ss::<C>(&C::smul(form, a, b)));
        }
        t.sup(w("neg"), || ss::<C>(&C::sneg(0, a)));
        t.may(w("/"), || ss::<C>(&C::sdiv(0, a, b)));
        t.may(w("1/"), || ss::<C>(&C::sinv(1, a)));
        t.may(w("2/"), || ss::<C>(&C::sinv(2, a)));
        t.sup(w("=="), || format!("{:?}", C::scalar_eq(a, b)));
    }
}

/// Bit sequences, read to their ends and beyond, of scalars that fill their machine words.
fn words<C: Cut>(t: &mut T, r: &BigUint) {
    let one = BigUint::one();
    let mut ks = vec![big(0), one.clone(), r - 1u32];
    for n in [7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 192, 255, 256] {
        if n < r.bits() {
            ks.push(&one << n);
            ks.push((&one << n) - 1u32);
        }
    }
    for k in ks {
        let s = C::snew(cut::bi(&k), r);
        let show = |v: Vec<bool>| v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
        t.sup(format!("[{:?} r={r}] bits of {k}", C::KIND), || format!("{} {}", show(C::bits_lr(&s)), show(C::bits_rl(&s))));
        t.sup(format!("[{:?} r={r}] octets of {k}", C::KIND), || format!("{} {}", hex(&s.to_bytes_be()), hex(&s.to_bytes_le())));
    }
}

/// Codecs of fields whose octet counts outgrow a byte.
fn wide(t: &mut T, p: &BigUint) {
    let f = Fp::new(p.clone());
    let n = f.size_bytes();
    t.sup(format!("[{} bits] size", p.bits()), || format!("{n}"));
    for i in (0..n).step_by(1.max(n / 300)).chain([n - 1]) {
        let v = (BigUint::one() << (8 * i)) % p;
        let x = f.elt(cut::bi(&v));
        t.sup(format!("[{} bits] octets of 256^{i}", p.bits()), || format!("{} {} {}", hex(&x.to_bytes_be()), hex(&x.to_bytes_le()), x.sgn0()));
        let mut b = vec![0; n];
        b[n - 1 - i] = 1;
        t.obs(true, format!("[{} bits] 256^{i} from octets", p.bits()), || {
            let y = f.from_bytes_be(&b).map_err(|e| e.to_string())?;
            Ok(format!("{} {}", y == x, sfp(&y)))
        });
    }
    if p % 4u32 == big(3) {
        let g = Fp2::new(p.clone());
        for i in [0, 1, 127, 128, 255, 256, n - 1] {
            let x: Fp2Elt = FromFactory::from(&g, format!("{},{}", (BigUint::one() << (8 * i.min(n - 1))) % p, i).as_str());
            t.sup(format!("[{} bits] octets of (256^{i}, {i})", p.bits()), || format!("{} {}", hex(&x.to_bytes_be()), hex(&x.to_bytes_le())));
        }
    }
}

fn curve<C: Cut>(t: &mut T, rc: &RC) {
    let e = if rc.name.is_empty() { C::custom(rc) } else { C::named(rc.name).unwrap().0 };
    let f = e.get_field();
    let c = Crv::<C> { rc: rc.clone(), e, f };
    let e = &c.e;
    t.sup(format!("curve {}", rc.desc()), || {
        format!("{e} {} {} {} {}", e.get_order(), e.get_cofactor(), sp::<C>(&e.get_generator()), sp::<C>(&e.identity()))
    });
    let special = if t.scale == 0 {
        vec![]
    } else if rc.f.p.bits() < 12 { rc.enumerate() } else { cut::torsion(rc) };
    let n = (if rc.name.is_empty() { 10 } else { 4 } * t.scale).max(3);
    let mut ps: Vec<(String, C::P)> = vec![];
    for _ in 0..n {
        let p = cut::some_point(rc, &mut t.rng, &special);
        if let Ok(q) = guarded(|| c.pt_raw(&p)) {
            ps.push((p.to_string(), q));
        }
    }
    for i in 0..ps.len() {
        let (pn, p) = ps[i].clone();
        let (qn, q) = ps[t.rng.below(ps.len())].clone();
        let d = rc.desc();
        let w = |o: &str| format!("[{d}] {pn} {o} {qn}");
        let form = t.rng.below(4);
        t.sup(w("+"), || sp::<C>(&C::add(form, &p, &q)));
        t.sup(w("-"), || sp::<C>(&C::sub(form, &p, &q)));
        t.sup(w("doubling"), || sp::<C>(&C::add(form, &p, &p)));
        t.sup(w("neg"), || sp::<C>(&C::neg(form, &p)));
        t.sup(w("=="), || format!("{} {} {}", p == q, C::add(0, &p, &q) == C::add(0, &q, &p), e.is_on_curve(&p)));
        let k = cut::scalar_int(&mut t.rng, &rc.r);
        t.sup(w(&format!("* {k},")), || {
            let s = e.new_scalar(k.clone());
            format!("{} {}", ss::<C>(&s), sp::<C>(&C::mul(form, &p, &s)))
        });
        for comp in [false, true] {
            t.obs(true, w("decode"), || e.decode(&p.encode(comp)).map(|q| sp::<C>(&q)).map_err(|e| e.to_string()));
            let mut b = p.encode(comp);
            for _ in 0..2 * t.scale {
                match t.rng.below(6) {
                    0 if !b.is_empty() => {
                        let i = t.rng.below(b.len());
                        b[i] ^= 1 << t.rng.below(8);
                    }
                    1 if !b.is_empty() => b[0] = t.rng.below(16) as u8,
                    2 => b.push(t.rng.u64() as u8),
                    3 => drop(b.pop()),
                    4 => b = {
                        let l = t.rng.below(2 * b.len() + 3);
                        t.rng.bytes(l)
                    },
                    _ => b.iter_mut().skip(1).for_each(|x| *x = 0xff),
                }
                t.obs(true, format!("[{d}] decode {}", hex(&b)), || e.decode(&b).map(|q| sp::<C>(&q)).map_err(|e| e.to_string()));
            }
        }
        let (x, y) = (gen::elt(&mut t.rng, &rc.f.p), gen::elt(&mut t.rng, &rc.f.p));
        t.may(format!("[{d}] point {x} {y}"), || sp::<C>(&e.new_point(c.fe(&x), c.fe(&y))));
    }
    // every prefix and every length
    let b = e.get_generator().encode(false);
    for l in 0..b.len() + 3 {
        let mut v = b.clone();
        v.resize(l, 0);
        t.obs(true, format!("[{}] decode {}", rc.desc(), hex(&v)), || e.decode(&v).map(|q| sp::<C>(&q)).map_err(|e| e.to_string()));
    }
    for tag in (0..=255u8).step_by(if t.scale == 0 { 63 } else { 1 }) {
        for mut v in [e.get_generator().encode(true), b.clone(), vec![0]] {
            v[0] = tag;
            t.obs(true, format!("[{}] decode {}", rc.desc(), hex(&v)), || e.decode(&v).map(|q| sp::<C>(&q)).map_err(|e| e.to_string()));
        }
    }
}

fn inputs(t: &mut T, f: &Fp, n: usize) -> Vec<FpElt> {
    let p = f.get_modulus().to_biguint().unwrap();
    let mut v = vec![f.zero(), f.one(), -f.one(), f.from(2)];
    for _ in 0..n * t.scale {
        v.push(f.elt(cut::bi(&gen::elt(&mut t.rng, &p))));
    }
    v
}

macro_rules! maps {
    ($t:ident, $name:expr, $C:ty, $f:expr, $new:expr) => {{
        let f: Fp = $f;
        let name: String = $name;
        let us = inputs($t, &f, 4);
        match guarded(|| $new) {
            Ok(m) => {
                for u in us {
                    $t.sup(format!("{name} map {u}"), || sp::<$C>(&m.map(&u)));
                }
            }
            Err(_) => $t.log("refused", &name, ""),
        }
    }};
}

fn named_maps(t: &mut T, which: usize) {
    match which {
        0..=2 => {
            let id = [&ins::P256, &ins::P384, &ins::P521][which];
            let e = id.get();
            let f = e.get_field();
            for z in [-10, -12, -4, -3, 1, 2, 5, 7, 11] {
                maps!(t, format!("SSWU {id} {z}"), W, f.clone(), weierstrass::SSWU::new(e.clone(), f.from(z)));
                maps!(t, format!("SVDW {id} {z}"), W, f.clone(), weierstrass::SVDW::new(e.clone(), f.from(z)));
            }
        }
        3 => {
            for (id, z) in [(&ins::SECP256K1, 1), (&ins::BLS12381G1, -3), (&ins::SECP256K1_3ISO, 2), (&ins::BLS12381G1_11ISO, 5)] {
                let e = id.get();
                let f = e.get_field();
                for z in [z, -1, 3] {
                    maps!(t, format!("SVDW {id} {z}"), W, f.clone(), weierstrass::SVDW::new(e.clone(), f.from(z)));
                }
            }
        }
        4 => {
            for z in [-11, -1, 3, 4] {
                let e = ins::SECP256K1.get();
                let f = e.get_field();
                maps!(t, format!("SSWUAB0 secp256k1 {z}"), W, f.clone(), weierstrass::SSWUAB0::new(e.clone(), f.from(z), Box::new(ins::get_isogeny_secp256k1())));
            }
        }
        5 => {
            for z in [11, -1, 2] {
                let e = ins::BLS12381G1.get();
                let f = e.get_field();
                maps!(t, format!("SSWUAB0 bls {z}"), W, f.clone(), weierstrass::SSWUAB0::new(e.clone(), f.from(z), Box::new(ins::get_isogeny_bls12381g1())));
            }
        }
        6 => {
            for (id, z) in [(&ins::CURVE25519, 2), (&ins::CURVE448, -1)] {
                let e = id.get();
                let f = e.get_field();
                for z in [z, 1, 5, 3] {
                    maps!(t, format!("Ell2 {id} {z}"), M, f.clone(), montgomery::Ell2::new(e.clone(), f.from(z)));
                }
            }
        }
        _ => {
            let e = ins::EDWARDS25519.get();
            let f = e.get_field();
            for z in [2, 1, 3] {
                maps!(t, format!("Ell2 edwards25519 {z}"), E, f.clone(), edwards::Ell2::new(e.clone(), f.from(z), Some(Box::new(ins::edwards25519_to_curve25519()))));
            }
            let e = ins::EDWARDS448.get();
            let f = e.get_field();
            for z in [-1, 1, 3] {
                maps!(t, format!("Ell2 edwards448 {z}"), E, f.clone(), edwards::Ell2::new(e.clone(), f.from(z), Some(Box::new(ins::edwards448_to_curve448()))));
            }
            maps!(t, "Ell2 foreign".into(), E, f.clone(), edwards::Ell2::new(e.clone(), f.from(-1), Some(Box::new(ins::edwards25519_to_curve25519()))));
        }
    }
}

fn tiny_maps(t: &mut T, p: u64) {
    for rc in cut::any_tiny(Kind::W, p, 6 * t.scale, 5) {
        let e = W::custom(&rc);
        let f = e.get_field();
        for z in 0..p.min(24) {
            maps!(t, format!("SSWU {} {z}", rc.desc()), W, f.clone(), weierstrass::SSWU::new(e.clone(), f.from(z)));
            maps!(t, format!("SVDW {} {z}", rc.desc()), W, f.clone(), weierstrass::SVDW::new(e.clone(), f.from(z)));
        }
    }
    for rc in cut::any_tiny(Kind::M, p, 6 * t.scale, 5) {
        let e = M::custom(&rc);
        let f = e.get_field();
        for z in 0..p.min(24) {
            maps!(t, format!("Ell2 {} {z}", rc.desc()), M, f.clone(), montgomery::Ell2::new(e.clone(), f.from(z)));
        }
    }
}

fn ratmaps<R: RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>(t: &mut T, name: &str, r: R, e: RC, m: RC) {
    let (ed, mt) = (r.domain(), r.codomain());
    let f = ed.get_field();
    let ce = Crv::<E> { f: f.clone(), e: ed, rc: e.clone() };
    let cm = Crv::<M> { f, e: mt, rc: m.clone() };
    let (se, sm) = (cut::torsion(&e), cut::torsion(&m));
    let (ve, vm): (Vec<RP>, Vec<RP>) = (0..12 * t.scale)
        .map(|_| (cut::some_point(&e, &mut t.rng, &se), cut::some_point(&m, &mut t.rng, &sm)))
        .unzip();
    for p in se.iter().chain(&[e.id(), e.g.clone()]).chain(&ve) {
        t.sup(format!("{name} push {p}"), || sp::<M>(&r.push(ce.pt_raw(p))));
        t.sup(format!("{name} pull push {p}"), || sp::<E>(&r.pull(r.push(ce.pt_raw(p)))));
    }
    for p in sm.iter().chain(&[m.id(), m.g.clone()]).chain(&vm) {
        t.sup(format!("{name} pull {p}"), || sp::<E>(&r.pull(cm.pt_raw(p))));
    }
}

fn isogenies<I: Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>>(t: &mut T, name: &str, i: I, rc: RC) {
    let e = i.domain();
    let c = Crv::<W> { f: e.get_field(), e, rc: rc.clone() };
    for _ in 0..16 * t.scale {
        let p = cut::some_point(&rc, &mut t.rng, &[]);
        t.sup(format!("{name} push {p}"), || sp::<W>(&i.push(c.pt_raw(&p))));
    }
}

type Sect = (String, Box<dyn Fn(&mut T) + Send + Sync>);

fn sections(seed: u64, scale: usize) -> Vec<Sect> {
    let mut v: Vec<Sect> = vec![];
    let mut rng = Rng::new(seed ^ 0xC28);
    let chunk = |ps: Vec<BigUint>| ps.chunks(6).map(|c| c.to_vec()).collect::<Vec<_>>();
    for (i, ps) in chunk(primes(&mut rng, |_| true, 4 * scale)).into_iter().enumerate() {
        v.push((format!("fp{i}"), Box::new(move |t| ps.iter().for_each(|p| fp(t, p)))));
    }
    for (i, ps) in chunk(primes(&mut rng, |m| m % 4 == 3, 2 * scale)).into_iter().enumerate() {
        v.push((format!("fp2_{i}"), Box::new(move |t| ps.iter().for_each(|p| fp2(t, p)))));
    }
    let rs: Vec<BigUint> = primes(&mut rng, |_| true, 4 * scale);
    v.push(("scalars_w".into(), Box::new({ let rs = rs.clone(); move |t| rs.iter().for_each(|r| scalars::<W>(t, r)) })));
    v.push(("scalars_m".into(), Box::new({ let rs = rs.clone(); move |t| rs.iter().for_each(|r| scalars::<M>(t, r)) })));
    v.push(("scalars_e".into(), Box::new(move |t| rs.iter().for_each(|r| scalars::<E>(t, r)))));
    for r in [(BigUint::one() << 64) - 59u32, (BigUint::one() << 521) - 1u32, gen::giant_prime(0)] {
        let n = r.bits();
        v.push((format!("words_{n}"), Box::new(move |t| {
            words::<W>(t, &r);
            words::<M>(t, &r);
            words::<E>(t, &r);
        })));
    }
    for i in [0, 3, 1] {
        v.push((format!("wide_{i}"), Box::new(move |t| wide(t, &gen::giant_prime(i)))));
    }
    for n in vcore::named::NAMES.iter() {
        v.push((format!("curve_{n}"), Box::new(move |t| {
            let rc = vcore::named::rc(n);
            match rc.kind {
                Kind::W => curve::<W>(t, &rc),
                Kind::M => curve::<M>(t, &rc),
                Kind::E => curve::<E>(t, &rc),
            }
        })));
    }
    for p in [7u64, 11, 13, 19, 23, 251, 263] {
        v.push((format!("tiny_{p}"), Box::new(move |t| {
            for rc in cut::tiny_sample(Kind::W, p, 2 * t.scale, 3) {
                curve::<W>(t, &rc);
            }
            for rc in cut::tiny_sample(Kind::M, p, 2 * t.scale, 3) {
                curve::<M>(t, &rc);
            }
            for rc in cut::tiny_sample(Kind::E, p, 2 * t.scale, 3) {
                curve::<E>(t, &rc);
            }
        })));
        v.push((format!("tinymaps_{p}"), Box::new(move |t| tiny_maps(t, p))));
    }
    for i in 0..3 + scale {
        let bits = 8 + rng.below(200);
        let p = gen::rand_prime(&mut rng, bits, |m| m % 8 != 1);
        v.push((format!("random_{i}"), Box::new(move |t| {
            for k in [Kind::W, Kind::M, Kind::E] {
                let rc = cut::random_curve(k, &p, &mut t.rng);
                match k {
                    Kind::W => curve::<W>(t, &rc),
                    Kind::M => curve::<M>(t, &rc),
                    Kind::E => curve::<E>(t, &rc),
                }
            }
        })));
    }
    for i in 0..8 {
        v.push((format!("maps_{i}"), Box::new(move |t| named_maps(t, i))));
    }
    let rc = vcore::named::rc;
    v.push(("ratmap25519".into(), Box::new(move |t| ratmaps(t, "25519", ins::edwards25519_to_curve25519(), rc("edwards25519"), rc("curve25519")))));
    v.push(("ratmap448".into(), Box::new(move |t| ratmaps(t, "448", ins::edwards448_to_curve448(), rc("edwards448"), rc("curve448")))));
    v.push(("iso_secp".into(), Box::new(move |t| isogenies(t, "3iso", ins::get_isogeny_secp256k1(), rc("secp256k1_3iso")))));
    v.push(("iso_bls".into(), Box::new(move |t| isogenies(t, "11iso", ins::get_isogeny_bls12381g1(), rc("bls12381_g1_11iso")))));
    v
}

/// The part of the workload an interpreter can afford.
type Tiny = (Kind, u64, u64, u64, u64, u64, u64, u64, u64);
const WP: Tiny = (Kind::W, 13, 12, 1, 0, 19, 1, 0, 1);
const MP: Tiny = (Kind::M, 13, 1, 2, 12, 3, 4, 11, 6);
const EP: Tiny = (Kind::E, 13, 4, 2, 0, 5, 4, 1, 9);

fn tiny_sections() -> Vec<Sect> {
    let mut v: Vec<Sect> = vec![];
    for p in [3u64, 5, 7, 13, 17, 251, 257] {
        v.push((format!("fp_{p}"), Box::new(move |t| fp(t, &big(p)))));
    }
    for p in [3u64, 7] {
        v.push((format!("fp2_{p}"), Box::new(move |t| fp2(t, &big(p)))));
    }
    v.push(("scalars_w".into(), Box::new(|t| scalars::<W>(t, &big(257)))));
    v.push(("scalars_m".into(), Box::new(|t| scalars::<M>(t, &big(5)))));
    v.push(("scalars_e".into(), Box::new(|t| scalars::<E>(t, &big(13)))));
    v.push(("wide_32".into(), Box::new(|t| wide(t, &((BigUint::one() << 255) - 19u32)))));
    v.push(("words_w".into(), Box::new(|t| words::<W>(t, &((BigUint::one() << 255) - 19u32)))));
    v.push(("words_m".into(), Box::new(|t| words::<M>(t, &((BigUint::one() << 255) - 19u32)))));
    v.push(("words_e".into(), Box::new(|t| words::<E>(t, &((BigUint::one() << 255) - 19u32)))));
    let rc = |(kind, p, a, b, s, r, h, x, y): Tiny| RC {
        kind,
        name: "",
        f: vcore::refm::F::new(&big(p)),
        a: big(a),
        b: big(b),
        s: big(s),
        r: big(r),
        h: big(h),
        g: RP::A(big(x), big(y)),
    };
    v.push(("curve_w".into(), Box::new(move |t| curve::<W>(t, &rc(WP)))));
    v.push(("curve_m".into(), Box::new(move |t| curve::<M>(t, &rc(MP)))));
    v.push(("curve_e".into(), Box::new(move |t| curve::<E>(t, &rc(EP)))));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("digest");
    let seed: u64 = a.get(2).and_then(|v| v.parse().ok()).unwrap_or(1);
    let scale: usize = a.get(3).and_then(|v| v.parse().ok()).unwrap_or(1);
    let only = a.get(4).cloned();
    vcore::mon::install_hook();
    // scale 0 is the interpreted workload
    let all = if scale == 0 { tiny_sections() } else { sections(seed, scale) };
    if mode == "list" {
        all.iter().for_each(|s| println!("{}", s.0));
        return;
    }
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, String, T)>> = Mutex::new(vec![]);
    let threads = if mode == "dump" { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some((name, f)) = all.get(i) else { break };
                if only.as_ref().is_some_and(|o| o != name) {
                    continue;
                }
                let mut t = T {
                    rng: Rng::new(fnv(format!("{seed}/{name}").as_bytes())),
                    scale,
                    dump: mode == "dump",
                    digest: BigUint::one().bits(),
                    events: 0,
                    kinds: BTreeMap::new(),
                    seen: HashSet::new(),
                    arith: vec![],
                };
                // what a workload itself cannot set up is part of the transcript
                if let Err(p) = guarded(|| f(&mut t)) {
                    t.log("refused", "the rest of this section", "");
                    if p.contains("with overflow") || p.contains("out of bounds") || p.contains("out of range") {
                        t.arith.push(format!("workload {name}: {p}"));
                    }
                    eprintln!("cut short {name}: {p}");
                }
                out.lock().unwrap().push((i, name.clone(), t));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, name, t) in &v {
        let k: Vec<String> = t.kinds.iter().map(|(k, n)| format!("{k}={n}")).collect();
        println!("SECTION {name} {:016x} {} {} {}", t.digest, t.events, t.seen.len(), k.join(" "));
        for x in t.arith.iter().take(3) {
            println!("ARITH {name} {}", x.replace('\n', " "));
        }
    }
    println!("PROF-DONE");
}
