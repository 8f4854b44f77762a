//! C22 (named curves), C23 (mixing is refused), C27 (purity).
use super::curves::named_torsion;
use super::many;
use crate::cut::*;
use crate::gen::{self, big};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::{Deserialize, FromFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};

// ------------------------------------------------------------------ C22

fn c22_for<C: Cut>(pl: &mut Plan, th: bool) {
    let named = named_rcs(C::KIND);
    let nn = named.len() as u64;
    let nd = named.clone();
    pl.job(format!("{:?} parameters", C::KIND), nn, move |ctx| {
        let rc = &nd[ctx.case as usize];
        let name = rc.name;
        let (e, shown) = lib!(ctx, C::named(name).unwrap(), "instantiating {name}");
        ensure!(ctx, shown == name, "the identifier of {name} prints {shown}");
        let f = lib!(ctx, e.get_field(), "get_field");
        let m = lib!(ctx, f.get_modulus(), "get_modulus");
        ensure!(ctx, m == bi(&rc.f.p), "{name} has field prime {m} instead of {}", rc.f.p);
        let r = lib!(ctx, e.get_order(), "get_order");
        ensure!(ctx, r == rc.r, "{name} has order {r} instead of {}", rc.r);
        let h = lib!(ctx, e.get_cofactor(), "get_cofactor");
        ensure!(ctx, h == bi(&rc.h), "{name} has cofactor {h} instead of {}", rc.h);
        let g = lib!(ctx, e.get_generator(), "get_generator");
        let c = Crv::<C>::new(ctx, rc)?;
        c.expect(ctx, &g, &rc.g, || "get_generator()".into())?;
        let enc = lib!(ctx, g.encode(false), "encoding the generator");
        ensure!(ctx, enc == rc.encode(&rc.g, false), "the generator of {name} encodes to {enc:?}");
        // every coefficient, through curve equality with a curve built from the standard
        let mut std = rc.clone();
        std.name = "";
        let own = Crv::<C>::new(ctx, &std)?;
        let same = lib!(ctx, e == own.e && own.e == e, "curve comparison");
        ensure!(ctx, same, "{name} differs from the curve with the published parameters");
        // ... and through the equation
        for _ in 0..40 {
            let q = rand_point(rc, &mut ctx.rng);
            let p = c.pt(ctx, &q)?;
            let on = lib!(ctx, e.is_on_curve(&p), "is_on_curve");
            ensure!(ctx, on, "{name} does not contain {q}");
            ctx.seen(&[name.as_bytes(), q.to_string().as_bytes()]);
        }
        // independent instances
        let (e2, _) = lib!(ctx, C::named(name).unwrap(), "instantiating {name}");
        let same = lib!(ctx, e == e2 && e2.get_generator() == g, "comparison of two instances");
        ensure!(ctx, same, "two instances of {name} differ");
        let sum = lib!(ctx, C::add(0, &g, &e2.get_generator()), "adding across instances");
        c.expect(ctx, &sum, &rc.add(&rc.g, &rc.g), || "G + G across instances".into())?;
        // other identifiers give other curves
        for o in crate::named::NAMES {
            if let Some((eo, so)) = guarded(|| C::named(o)).ok().flatten() {
                if o != name {
                    let eq = lib!(ctx, eo == e, "comparison of {o} and {name}");
                    ensure!(ctx, !eq && so != name, "{o} and {name} are the same");
                }
            }
        }
        // order of the generator: r-1 maps it to its negative, r to the identity
        let k = c.scalar(ctx, &(bi(&rc.r) - 1))?;
        let q = lib!(ctx, C::mul(0, &g, &k), "(r-1)*G");
        c.expect(ctx, &q, &rc.neg(&rc.g), || "(r-1)*G".into())?;
        let q = lib!(ctx, C::add(0, &q, &g), "(r-1)*G + G");
        c.expect(ctx, &q, &rc.id(), || "(r-1)*G + G".into())?;
        assert!(rc.is_id(&rc.mul_raw(&rc.g, &rc.r)) && gen::is_prime(&rc.r) && gen::is_prime(&rc.f.p));
        ctx.hit("curves checked");
        ctx.sample(|| format!("{name} prints {shown}, r={r}, h={h}"));
        Ok(())
    });
    pl.job(format!("{:?} cofactor clearing", C::KIND), nn * many(th, 6, 120), move |ctx| {
        let rc = &named[(ctx.case % nn) as usize];
        let c = Crv::<C>::new(ctx, rc)?;
        let tor = named_torsion(rc.name);
        let g = c.pt(ctx, &rc.g)?;
        let h = lib!(ctx, c.e.get_cofactor(), "get_cofactor");
        let k = lib!(ctx, c.e.new_scalar(h.clone()), "new_scalar(cofactor)");
        let km = c.scalar(ctx, &(bi(&rc.r) - 1))?;
        let mut pts = vec![rand_point(rc, &mut ctx.rng)];
        if !tor.is_empty() {
            let t = ctx.rng.pick(&tor).clone();
            pts.push(rc.add(&t, &pts[0]));
            pts.push(t);
        }
        for rp in pts {
            let p = c.pt(ctx, &rp)?;
            let q = lib!(ctx, C::mul(0, &p, &k), "cofactor times {rp}");
            c.expect(ctx, &q, &rc.mul_raw(&rp, &h.to_biguint().unwrap()), || format!("cofactor {h} times {rp}"))?;
            let n = lib!(ctx, C::mul(0, &q, &km), "(r-1) times a cleared point");
            let z = lib!(ctx, C::add(0, &n, &q), "sum");
            let zero = lib!(ctx, z.is_zero(), "is_zero");
            let same = lib!(ctx, C::add(0, &z, &g) == g, "comparison");
            ensure!(ctx, zero || same, "{}: {h} * {rp} is not in the prime-order subgroup", rc.name);
            ctx.hit("points cleared");
            ctx.seen(&[rc.name.as_bytes(), rp.to_string().as_bytes(), b"clear"]);
        }
        Ok(())
    });
}

pub fn c22(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C22",
        "a case is one named curve compared with the published parameters, or one point of it (low-order components included) multiplied by the cofactor and then by the order; distinct = distinct (curve, point)",
    );
    pl.must_hit = vec!["curves checked", "points cleared", "companions"];
    c22_for::<W>(&mut pl, th);
    c22_for::<M>(&mut pl, th);
    c22_for::<E>(&mut pl, th);
    pl.job("companions", 1, |ctx| {
        macro_rules! pair {
            ($a:expr, $b:expr) => {{
                let (a, b) = (lib!(ctx, $a.get(), "get"), lib!(ctx, $b.get(), "get"));
                let same = lib!(ctx, a.get_field() == b.get_field(), "field comparison");
                ensure!(ctx, same, "{} and {} have different fields", $a, $b);
                let (r, s) = (lib!(ctx, a.get_order(), "order"), lib!(ctx, b.get_order(), "order"));
                ensure!(ctx, r == s, "{} and {} have different orders", $a, $b);
                ctx.hit("companions");
            }};
        }
        pair!(ins::SECP256K1_3ISO, ins::SECP256K1);
        pair!(ins::BLS12381G1_11ISO, ins::BLS12381G1);
        pair!(ins::EDWARDS25519, ins::CURVE25519);
        pair!(ins::EDWARDS448, ins::CURVE448);
        // identifiers are values
        let ok = lib!(ctx, ins::P256 == ins::P256 && ins::P256 != ins::P384 && ins::CURVE25519 != ins::CURVE448, "identifier comparison");
        ensure!(ctx, ok, "curve identifiers compare wrongly");
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C23

macro_rules! refuse4 {
    ($ctx:expr, $a:expr, $op:tt, $b:expr, $($w:tt)+) => {
        $ctx.refused(|| format!("{} (reference, reference)", format!($($w)+)), || $a $op $b)?;
        $ctx.refused(|| format!("{} (value, reference)", format!($($w)+)), || $a.clone() $op $b)?;
        $ctx.refused(|| format!("{} (reference, value)", format!($($w)+)), || $a $op $b.clone())?;
        $ctx.refused(|| format!("{} (value, value)", format!($($w)+)), || $a.clone() $op $b.clone())?;
    };
}

fn other_prime(ctx: &mut Ctx, p: &N, ok: impl Fn(u32) -> bool) -> N {
    if p.bits() > 6 && ctx.rng.below(3) != 0 {
        if let Some(q) = gen::near_prime(&mut ctx.rng, p, &ok) {
            ctx.hit("look-alike moduli or orders");
            return q;
        }
    }
    loop {
        let bits = match ctx.rng.below(3) {
            0 => (p.bits() as usize).max(4),
            1 => 4 + ctx.rng.below(60),
            _ => 4 + ctx.rng.below(300),
        };
        let q = gen::rand_prime(&mut ctx.rng, bits, &ok);
        if q != *p {
            return q;
        }
    }
}

fn mix_fp(ctx: &mut Ctx, p: &N, q: &N) -> R {
    let (f, g) = (lib!(ctx, Fp::new(p.clone()), "Fp::new"), lib!(ctx, Fp::new(q.clone()), "Fp::new"));
    let f2 = lib!(ctx, Fp::new(p.clone()), "Fp::new");
    let same = lib!(ctx, f == g || g == f, "field comparison");
    ensure!(ctx, !same, "the fields of {p} and {q} compare equal");
    let same = lib!(ctx, f == f2 && f == f.clone(), "field comparison");
    ensure!(ctx, same, "two instances of the field of {p} differ");
    let small = if p < q { p } else { q };
    let a = gen::elt(&mut ctx.rng, p);
    // same residue in both fields, zero, one, and unrelated values
    let bs = vec![N::zero(), N::one(), &a % small, gen::elt(&mut ctx.rng, q)];
    for av in [a.clone(), N::zero(), N::one(), &a % small] {
        for bv in &bs {
            let (x, y) = (lib!(ctx, f.elt(bi(&av)), "elt"), lib!(ctx, g.elt(bi(bv)), "elt"));
            refuse4!(ctx, &x, +, &y, "{av} (mod {p}) + {bv} (mod {q})");
            refuse4!(ctx, &x, -, &y, "{av} (mod {p}) - {bv} (mod {q})");
            refuse4!(ctx, &x, *, &y, "{av} (mod {p}) * {bv} (mod {q})");
            refuse4!(ctx, &x, /, &y, "{av} (mod {p}) / {bv} (mod {q})");
            let eq = lib!(ctx, x == y || y == x, "comparing {av} (mod {p}) and {bv} (mod {q})");
            ensure!(ctx, !eq, "{av} (mod {p}) equals {bv} (mod {q})");
            let ne = lib!(ctx, x != y && y != x, "comparing {av} (mod {p}) and {bv} (mod {q})");
            ensure!(ctx, ne, "{av} (mod {p}) is not unequal to {bv} (mod {q})");
            ctx.hit("cross-field operations");
            ctx.seen(&[&p.to_bytes_le(), &q.to_bytes_le(), &av.to_bytes_le(), &bv.to_bytes_le()]);
        }
    }
    // equal parameters interoperate
    let m = F::new(p);
    let b = gen::elt(&mut ctx.rng, p);
    let (x, y) = (lib!(ctx, f.elt(bi(&a)), "elt"), lib!(ctx, f2.elt(bi(&b)), "elt"));
    let ok = lib!(
        ctx,
        &x + &y == f.elt(bi(&m.add(&a, &b))) && &x - &y == f2.elt(bi(&m.sub(&a, &b))) && &x * &y == f.elt(bi(&m.mul(&a, &b))),
        "operations across instances of the field of {p}"
    );
    ensure!(ctx, ok, "operations across two instances of the field of {p} are wrong for {a} and {b}");
    let eq = lib!(ctx, f2.elt(bi(&a)) == x && x == f2.elt(bi(&a)), "comparison");
    ensure!(ctx, eq, "{a} differs between two instances of the field of {p}");
    ctx.hit("interoperation");
    // unsupported numerators and exponents
    for n in [0u32, 2, 3, 10, u32::MAX, ctx.rng.below(1 << 30) as u32 + 2] {
        ctx.refused(|| format!("{n}/{a} mod {p}"), || n / &x)?;
        if n != 2 {
            ctx.refused(|| format!("{a}^{n}u32 mod {p}"), || &x ^ n)?;
            ctx.refused(|| format!("{a}^{n}u32 mod {p} (value)"), || x.clone() ^ n)?;
        }
    }
    ctx.refused(|| format!("{a}^1u32 mod {p}"), || &x ^ 1u32)?;
    for n in [0i32, 1, 2, -2, i32::MIN, i32::MAX, -(ctx.rng.below(1 << 30) as i32) - 2] {
        ctx.refused(|| format!("{a}^{n}i32 mod {p}"), || &x ^ n)?;
        ctx.refused(|| format!("{a}^{n}i32 mod {p} (value)"), || x.clone() ^ n)?;
    }
    ctx.hit("numerators and exponents");
    Ok(())
}

fn mix_fp2(ctx: &mut Ctx, p: &N, q: &N) -> R {
    let (f, g) = (lib!(ctx, Fp2::new(p.clone()), "Fp2::new"), lib!(ctx, Fp2::new(q.clone()), "Fp2::new"));
    let f2 = lib!(ctx, Fp2::new(p.clone()), "Fp2::new");
    let same = lib!(ctx, f == g || g == f, "field comparison");
    ensure!(ctx, !same, "the extensions of {p} and {q} compare equal");
    let same = lib!(ctx, f == f2, "field comparison");
    ensure!(ctx, same, "two instances of the extension of {p} differ");
    let mk = |f: &Fp2, a: &N, b: &N| -> Fp2Elt { FromFactory::from(f, format!("{a},{b}").as_str()) };
    let small = if p < q { p.clone() } else { q.clone() };
    let a = (gen::elt(&mut ctx.rng, &small), gen::elt(&mut ctx.rng, &small));
    let z = (N::zero(), N::zero());
    let o = (N::one(), N::zero());
    for (av, bv) in [(&a, &a), (&z, &z), (&o, &o), (&a, &o), (&z, &a)] {
        let (x, y) = (lib!(ctx, mk(&f, &av.0, &av.1), "from"), lib!(ctx, mk(&g, &bv.0, &bv.1), "from"));
        refuse4!(ctx, &x, +, &y, "{av:?} (ext {p}) + {bv:?} (ext {q})");
        refuse4!(ctx, &x, -, &y, "{av:?} (ext {p}) - {bv:?} (ext {q})");
        refuse4!(ctx, &x, *, &y, "{av:?} (ext {p}) * {bv:?} (ext {q})");
        refuse4!(ctx, &x, /, &y, "{av:?} (ext {p}) / {bv:?} (ext {q})");
        let eq = lib!(ctx, x == y || y == x, "comparing elements of the extensions of {p} and {q}");
        ensure!(ctx, !eq, "{av:?} (ext {p}) equals {bv:?} (ext {q})");
        ctx.hit("cross-extension operations");
        ctx.seen(&[b"ext", &p.to_bytes_le(), &q.to_bytes_le(), &av.0.to_bytes_le(), &bv.0.to_bytes_le()]);
    }
    let (x, y) = (lib!(ctx, mk(&f, &a.0, &a.1), "from"), lib!(ctx, mk(&f2, &a.0, &a.1), "from"));
    let ok = lib!(ctx, x == y && (&x - &y) == f.zero() && (&x + &y) == mk(&f, &((&a.0 * 2u32) % p), &((&a.1 * 2u32) % p)), "interoperation");
    ensure!(ctx, ok, "operations across two instances of the extension of {p} are wrong for {a:?}");
    for n in [0u32, 2, 7, u32::MAX] {
        ctx.refused(|| format!("{n}/{a:?} in the extension of {p}"), || n / &x)?;
        if n != 2 {
            ctx.refused(|| format!("{a:?}^{n}u32 in the extension of {p}"), || &x ^ n)?;
        }
    }
    ctx.refused(|| format!("{a:?}^1u32 in the extension of {p}"), || &x ^ 1u32)?;
    for n in [0i32, 1, 2, -2, i32::MIN] {
        ctx.refused(|| format!("{a:?}^{n}i32 in the extension of {p}"), || &x ^ n)?;
    }
    Ok(())
}

fn mix_scalars<C: Cut>(ctx: &mut Ctx, r: &N, s: &N) -> R {
    let k = C::KIND;
    let v = gen::elt(&mut ctx.rng, r);
    for (a, b) in [(v.clone(), gen::elt(&mut ctx.rng, s)), (N::zero(), N::zero()), (N::one(), N::one())] {
        let (x, y) = (lib!(ctx, C::snew(bi(&a), r), "Scalar::new"), lib!(ctx, C::snew(bi(&b), s), "Scalar::new"));
        for form in 0..4 {
            ctx.refused(|| format!("{k:?}: {a} (order {r}) + {b} (order {s}), form {form}"), || C::sadd(form, &x, &y))?;
            ctx.refused(|| format!("{k:?}: {a} (order {r}) - {b} (order {s}), form {form}"), || C::ssub(form, &x, &y))?;
            ctx.refused(|| format!("{k:?}: {a} (order {r}) * {b} (order {s}), form {form}"), || C::smul(form, &x, &y))?;
            ctx.refused(|| format!("{k:?}: {a} (order {r}) / {b} (order {s}), form {form}"), || C::sdiv(form, &x, &y))?;
        }
        if let Some(eq) = lib!(ctx, C::scalar_eq(&x, &y), "comparing scalars") {
            ensure!(ctx, !eq, "{k:?}: {a} (order {r}) equals {b} (order {s})");
        }
        for n in [0u32, 2, 5, u32::MAX] {
            ctx.refused(|| format!("{k:?}: {n}/{a} (order {r})"), || C::sinv(n, &x))?;
        }
        // equal orders interoperate
        let z = lib!(ctx, C::snew(bi(&a), r), "Scalar::new");
        let t = lib!(ctx, C::ssub(0, &x, &z).to_bytes_be(), "difference");
        ensure!(ctx, t.iter().all(|b| *b == 0), "{k:?}: {a} - {a} (order {r}) is not zero across instances");
        if let Some(eq) = lib!(ctx, C::scalar_eq(&x, &z), "comparing scalars") {
            ensure!(ctx, eq, "{k:?}: {a} (order {r}) differs from itself");
        }
        ctx.hit("cross-order scalars");
        ctx.seen(&[&r.to_bytes_le(), &s.to_bytes_le(), &a.to_bytes_le(), &[k as u8]]);
    }
    Ok(())
}

/// Two different curves: every mixing is refused, comparison says no.
fn mix_curves<C: Cut>(ctx: &mut Ctx, r0: &RC, r1: &RC) -> R {
    let (c0, c1) = (Crv::<C>::new(ctx, r0)?, Crv::<C>::new(ctx, r1)?);
    let (d0, d1) = (r0.desc(), r1.desc());
    let eq = lib!(ctx, c0.e == c1.e || c1.e == c0.e, "comparing {d0} and {d1}");
    ensure!(ctx, !eq, "the curves {d0} and {d1} compare equal");
    let ps = [r0.id(), r0.g.clone(), rand_point(r0, &mut ctx.rng)];
    let qs = [r1.id(), r1.g.clone(), rand_point(r1, &mut ctx.rng)];
    for rp in &ps {
        for rq in &qs {
            let (p, q) = (c0.pt(ctx, rp)?, c1.pt(ctx, rq)?);
            for form in 0..4 {
                ctx.refused(|| format!("{rp} of {d0} + {rq} of {d1}, form {form}"), || C::add(form, &p, &q))?;
                ctx.refused(|| format!("{rp} of {d0} - {rq} of {d1}, form {form}"), || C::sub(form, &p, &q))?;
            }
            let eq = lib!(ctx, p == q || q == p, "comparing {rp} of {d0} with {rq} of {d1}");
            ensure!(ctx, !eq, "{rp} of {d0} equals {rq} of {d1}");
            ctx.hit("cross-curve points");
            ctx.seen(&[d0.as_bytes(), d1.as_bytes(), rp.to_string().as_bytes(), rq.to_string().as_bytes()]);
        }
    }
    if r0.r != r1.r {
        for rp in &ps {
            let p = c0.pt(ctx, rp)?;
            for n in [BigInt::zero(), BigInt::one(), bi(&gen::elt(&mut ctx.rng, &r1.r))] {
                let s = c1.scalar(ctx, &n)?;
                for form in 0..7 {
                    ctx.refused(|| format!("{n} (order {}) times {rp} of {d0}, form {form}", r1.r), || C::mul(form, &p, &s))?;
                }
                ctx.hit("foreign scalars");
            }
        }
    }
    if r0.f.p != r1.f.p {
        if let RP::A(x, y) = &r1.g {
            ctx.refused(|| format!("a point of {d0} from coordinates of the field of {d1}"), || {
                c0.e.new_point(c1.fe(x), c1.fe(y))
            })?;
        }
        if let (RP::A(x, _), RP::A(_, y)) = (&r0.g, &r1.g) {
            ctx.refused(|| format!("a point of {d0} with y from the field of {d1}"), || c0.e.new_point(c0.fe(x), c1.fe(y)))?;
            ctx.refused(|| format!("a point of {d1} with x from the field of {d0}"), || c1.e.new_point(c0.fe(x), c1.fe(y)))?;
        }
        ctx.hit("foreign coordinates");
    }
    Ok(())
}

/// Independent instances with equal parameters.
fn interop<C: Cut>(ctx: &mut Ctx, rc: &RC) -> R {
    let (c0, c1) = (Crv::<C>::new(ctx, rc)?, Crv::<C>::new(ctx, rc)?);
    let d = rc.desc();
    let eq = lib!(ctx, c0.e == c1.e && c0.e == c0.e.clone(), "comparing two instances of {d}");
    ensure!(ctx, eq, "two instances of {d} differ");
    let (rp, rq) = (rand_point(rc, &mut ctx.rng), rand_point(rc, &mut ctx.rng));
    let (p, q) = (c0.pt(ctx, &rp)?, c1.pt(ctx, &rq)?);
    let s = lib!(ctx, C::add(0, &p, &q), "sum across instances of {d}");
    c0.expect(ctx, &s, &rc.add(&rp, &rq), || format!("{rp} + {rq} across instances"))?;
    let s = lib!(ctx, C::sub(1, &q, &p), "difference across instances of {d}");
    c1.expect(ctx, &s, &rc.sub(&rq, &rp), || format!("{rq} - {rp} across instances"))?;
    let k = bi(&gen::big(ctx.rng.below(1000) as u64 + 2));
    let n = c1.scalar(ctx, &k)?;
    let s = lib!(ctx, C::mul(0, &p, &n), "multiple across instances of {d}");
    c0.expect(ctx, &s, &rc.mul(&rp, &k), || format!("{k} * {rp} across instances"))?;
    let p1 = c1.pt(ctx, &rp)?;
    let eq = lib!(ctx, p == p1 && p1 == p && c1.e.is_on_curve(&p), "comparison across instances of {d}");
    ensure!(ctx, eq, "{rp} differs between two instances of {d}");
    ctx.hit("interoperation");
    Ok(())
}

/// Curves which differ from `rc` in one ingredient of the group: another field,
/// another coefficient, or another scalar order.
pub fn variants(ctx: &mut Ctx, rc: &RC) -> Vec<RC> {
    let mut v = vec![];
    let f = &rc.f;
    // another coefficient, the same coordinates for the generator when possible
    if let RP::A(x, y) = &rc.g {
        for t in 0..60 {
            let a = gen::elt(&mut ctx.rng, &f.p);
            let (x2, y2) = (f.sqr(x), f.sqr(y));
            let b = match rc.kind {
                Kind::W => f.sub(&f.sub(&y2, &f.mul(&x2, x)), &f.mul(&a, x)),
                Kind::M => f.div(&f.add(&f.add(&f.mul(&x2, x), &f.mul(&a, &x2)), x), &y2),
                Kind::E => f.div(&f.sub(&f.add(&f.mul(&a, &x2), &y2), &N::one()), &f.mul(&x2, &y2)),
            };
            let mut o = rc.clone();
            o.name = "";
            o.a = a.clone();
            o.b = b.clone();
            if a != rc.a && nonsingular(rc.kind, f, &a, &b) && o.on(&rc.g) && (t > 40 || law_applies(rc.kind, f, &a, &b, &o.s)) {
                v.push(o);
                break;
            }
        }
    }
    // one coefficient changed a little, on curves with points of their own
    for which in 0..3 {
        for _ in 0..30 {
            let mut o = rc.clone();
            o.name = "";
            let old = if which == 0 { &rc.a } else { &rc.b };
            let k = ctx.rng.below(f.p.bits() as usize);
            let new = match ctx.rng.below(4) {
                0 => f.neg(old),
                1 => f.add(old, &((N::one() << 64usize) % &f.p)),
                2 => f.add(old, &N::one()),
                _ => f.add(old, &((N::one() << k) % &f.p)),
            };
            if new == *old {
                continue;
            }
            match which {
                0 => o.a = new,
                1 => o.b = new,
                _ => {
                    // both coefficients changed, their ratio kept
                    if f.mul(&rc.a, &rc.b).is_zero() {
                        break;
                    }
                    o.a = f.mul(&rc.a, &f.div(&new, &rc.b));
                    o.b = new;
                }
            }
            if !nonsingular(rc.kind, f, &o.a, &o.b) || !law_applies(rc.kind, f, &o.a, &o.b, &o.s) {
                continue;
            }
            // some small curves have no point besides those of small order
            let found = (0..40).find_map(|_| {
                let c = gen::elt(&mut ctx.rng, &f.p);
                o.with_coord(&c).into_iter().find(|q| !o.is_id(q))
            });
            if let Some(g) = found {
                o.g = g;
                v.push(o);
                break;
            }
        }
    }
    // the same equation with another order, cofactor or base point
    let mut o = rc.clone();
    o.name = "";
    match ctx.rng.below(3) {
        0 => o.r = other_prime(ctx, &rc.r, |_| true),
        1 => o.h = &rc.h + 1u32,
        _ => o.g = rc.neg(&rc.g),
    }
    if (&o.r, &o.h, &o.g) != (&rc.r, &rc.h, &rc.g) {
        ctx.hit("same equation, other order, cofactor or base point");
        v.push(o);
    }
    // another field
    let bits = (f.p.bits() as usize).clamp(5, 200);
    for _ in 0..20 {
        let p = match gen::near_prime(&mut ctx.rng, &f.p, |_| true) {
            Some(q) if q.bits() <= 260 && ctx.rng.bool() => q,
            _ => gen::rand_prime(&mut ctx.rng, bits, |_| true),
        };
        if p != f.p {
            let mut o = random_curve(rc.kind, &p, &mut ctx.rng);
            if ctx.rng.bool() {
                o.r = rc.r.clone();
            }
            v.push(o);
            break;
        }
    }
    // an unrelated curve over the same field
    let o = random_curve(rc.kind, &f.p, &mut ctx.rng);
    if (&o.a, &o.b) != (&rc.a, &rc.b) {
        v.push(o);
    }
    v
}

/// Instances that come and go while one stays: nothing found out about a value may
/// outlive it and be believed of the next one, wherever that one is put in memory.
fn recycled_fp(ctx: &mut Ctx) -> R {
    let bits = 4 + ctx.rng.below(200);
    let p = gen::rand_prime(&mut ctx.rng, bits, |m| m % 4 == 3);
    let qs = [p.clone(), other_prime(ctx, &p, |m| m % 4 == 3), p.clone(), other_prime(ctx, &p, |m| m % 4 == 3)];
    let (f, f2) = (lib!(ctx, Fp::new(p.clone()), "Fp::new"), lib!(ctx, Fp2::new(p.clone()), "Fp2::new"));
    let a = gen::elt(&mut ctx.rng, &p);
    let (x, x2) = (lib!(ctx, f.elt(bi(&a)), "elt"), lib!(ctx, f2.elt(bi(&a)), "elt"));
    let ext = ctx.rng.bool();
    for round in 0..32 {
        let q = ctx.rng.pick(&qs).clone();
        let b = gen::elt(&mut ctx.rng, &q);
        let (op, flip) = (ctx.rng.below(6), ctx.rng.bool());
        macro_rules! go {
            ($f:ident, $x:ident, $T:ident) => {{
                let got = guarded(|| {
                    let g = $T::new(q.clone());
                    let y = g.elt(bi(&b));
                    let (l, r) = if flip { (&y, &$x) } else { (&$x, &y) };
                    let v = match op {
                        0 => return Err($f == g),
                        1 => return Err(g == $f),
                        2 => return Err(l == r),
                        3 => l + r,
                        4 => l * r,
                        _ => l - r,
                    };
                    Ok((v.to_string(), y.is_square(), &(&y ^ 2u32).sqrt() ^ 2u32 == &y ^ 2u32))
                });
                let (m, c) = (F::new(&p), &b % &p);
                let want = match (op, flip) {
                    (3, _) => m.add(&a, &c),
                    (4, _) => m.mul(&a, &c),
                    (_, false) => m.sub(&a, &c),
                    _ => m.sub(&c, &a),
                };
                let what = || format!("round {round}: {} mod {p} and {} mod {q}, new: operation {op}, swapped {flip}", a, b);
                match got {
                    Ok(Err(eq)) => {
                        let same = p == q && (op < 2 || a == b);
                        ensure!(ctx, eq == same, "{}: comparison says {eq}", what());
                    }
                    Ok(Ok((v, sq, root))) => {
                        ensure!(ctx, p == q, "expected refusal but a value was returned: {}", what());
                        let want = if !ext { want.to_string() } else { format!("{want}+i*0") };
                        ensure!(ctx, v == want, "{}: {v} instead of {want}", what());
                        let sq0 = ext || F::new(&q).is_square(&b);
                        ensure!(ctx, sq == sq0, "{}: is_square({b}) = {sq}", what());
                        ensure!(ctx, root, "{}: wrong square root of {b}^2", what());
                    }
                    Err(e) => ensure!(ctx, p != q && op > 2, "library panicked {e} in {}", what()),
                }
            }};
        }
        if ext {
            go!(f2, x2, Fp2)
        } else {
            go!(f, x, Fp)
        }
        ctx.hit("instances created after others were dropped");
    }
    ctx.seen(&[b"recycled", &p.to_bytes_le(), &qs[1].to_bytes_le(), &a.to_bytes_le(), &[ext as u8]]);
    Ok(())
}

fn recycled_curve<C: Cut>(ctx: &mut Ctx, rc: &RC) -> R {
    let mut vs = variants(ctx, rc);
    if vs.is_empty() {
        return Ok(());
    }
    let i = ctx.rng.below(vs.len());
    let v = vs.swap_remove(i);
    let c0 = Crv::<C>::new(ctx, rc)?;
    let rp = rand_point(rc, &mut ctx.rng);
    let p = c0.pt(ctx, &rp)?;
    for round in 0..12 {
        let o = if ctx.rng.bool() { rc } else { &v };
        let same = o.desc() == rc.desc() && o.h == rc.h && o.r == rc.r && o.g == rc.g && o.s == rc.s;
        let rq = if same { rp.clone() } else { rand_point(o, &mut ctx.rng) };
        let k = BigInt::from(ctx.rng.below(50));
        let (op, form) = (ctx.rng.below(4), ctx.rng.below(4));
        let c1 = Crv::<C>::new(ctx, o)?;
        let what = || format!("round {round}: {rp} of {} and {rq} of {}, new: operation {op}", rc.desc(), o.desc());
        let got = guarded(|| {
            let q = c1.pt_raw(&rq);
            match op {
                0 => Err(p == q),
                1 => Err(c0.e == c1.e),
                2 => Ok(C::add(form, &p, &q)),
                _ => Ok(C::mul(form, &p, &c1.e.new_scalar(k.clone()))),
            }
        });
        match got {
            Ok(Err(eq)) => ensure!(ctx, eq == same, "{}: comparison says {eq}", what()),
            Ok(Ok(s)) => {
                let fine = same || (op == 3 && o.r == rc.r);
                ensure!(ctx, fine, "expected refusal but a value was returned: {}", what());
                let want = if op == 2 { rc.add(&rp, &rq) } else { rc.mul(&rp, &k.mod_floor(&bi(&rc.r))) };
                c0.expect(ctx, &s, &want, what)?;
            }
            Err(e) => ensure!(ctx, !same && op > 1, "library panicked {e} in {}", what()),
        }
        ctx.hit("instances created after others were dropped");
    }
    ctx.seen(&[b"recycled", rc.desc().as_bytes(), v.desc().as_bytes()]);
    Ok(())
}

fn c23_for<C: Cut>(pl: &mut Plan, th: bool) {
    let named = named_rcs(C::KIND);
    let nn = named.len() as u64;
    let nd = named.clone();
    pl.job(format!("{:?} named curves, all pairs", C::KIND), nn * nn, move |ctx| {
        let (a, b) = (&nd[(ctx.case / nn) as usize], &nd[(ctx.case % nn) as usize]);
        if a.name == b.name {
            interop::<C>(ctx, a)
        } else {
            mix_curves::<C>(ctx, a, b)
        }
    });
    pl.job(format!("{:?} curves and variants", C::KIND), many(th, 120, 3000), move |ctx| {
        let rc = if ctx.case % 5 == 0 {
            named[(ctx.case / 5) as usize % named.len()].clone()
        } else {
            let bits = 4 + ctx.rng.below(200);
            let p = gen::rand_prime(&mut ctx.rng, bits, |_| true);
            random_curve(C::KIND, &p, &mut ctx.rng)
        };
        interop::<C>(ctx, &rc)?;
        for o in variants(ctx, &rc) {
            mix_curves::<C>(ctx, &rc, &o)?;
            mix_curves::<C>(ctx, &o, &rc)?;
        }
        // the same curve with another scalar order: its scalars are foreign
        let mut o = rc.clone();
        o.name = "";
        o.r = other_prime(ctx, &rc.r, |_| true);
        let (c0, c1) = (Crv::<C>::new(ctx, &rc)?, Crv::<C>::new(ctx, &o)?);
        let p = c0.pt(ctx, &rc.g)?;
        let n = bi(&gen::elt(&mut ctx.rng, &o.r));
        let s = c1.scalar(ctx, &n)?;
        for form in 0..7 {
            ctx.refused(|| format!("{n} (order {}) times G of {}, form {form}", o.r, rc.desc()), || C::mul(form, &p, &s))?;
        }
        ctx.hit("foreign scalars");
        Ok(())
    });
    let named = named_rcs(C::KIND);
    pl.job(format!("{:?} curves that come and go", C::KIND), many(th, 80, 2000), move |ctx| {
        let rc = if ctx.case % 6 == 0 {
            named[(ctx.case / 6) as usize % named.len()].clone()
        } else {
            let bits = 4 + ctx.rng.below(200);
            let p = gen::rand_prime(&mut ctx.rng, bits, |_| true);
            random_curve(C::KIND, &p, &mut ctx.rng)
        };
        recycled_curve::<C>(ctx, &rc)
    });
    pl.job(format!("{:?} scalars", C::KIND), many(th, 200, 4000), move |ctx| {
        let bits = 2 + ctx.rng.below(300);
        let r = gen::rand_prime(&mut ctx.rng, bits.max(3), |_| true);
        let s = other_prime(ctx, &r, |_| true);
        mix_scalars::<C>(ctx, &r, &s)
    });
}

pub fn c23(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C23",
        "a case is one pair of values of different fields, extensions, orders or curves (same field with other coefficients, same coordinates on both curves, other fields, all pairs of named curves) offered to every operation in every operand form, or one pair from two instances with equal parameters; distinct = distinct (parameters, values)",
    );
    pl.must_hit = vec![
        "cross-field operations",
        "cross-extension operations",
        "cross-order scalars",
        "cross-curve points",
        "foreign scalars",
        "foreign coordinates",
        "interoperation",
        "numerators and exponents",
        "look-alike moduli or orders",
        "same equation, other order, cofactor or base point",
        "instances created after others were dropped",
    ];
    pl.job("prime fields, tiny", 49, |ctx| {
        let ps = [3u64, 5, 7, 11, 13, 17, 19];
        let (p, q) = (ps[ctx.case as usize / 7], ps[ctx.case as usize % 7]);
        if p == q {
            return Ok(());
        }
        mix_fp(ctx, &big(p), &big(q))?;
        if p % 4 == 3 && q % 4 == 3 {
            mix_fp2(ctx, &big(p), &big(q))?;
        }
        Ok(())
    });
    pl.job("prime fields", many(th, 300, 8000), |ctx| {
        let bits = 4 + ctx.rng.below(500);
        let p = gen::rand_prime(&mut ctx.rng, bits, |m| m % 4 == 3);
        let q = other_prime(ctx, &p, |_| true);
        mix_fp(ctx, &p, &q)?;
        let q = other_prime(ctx, &p, |m| m % 4 == 3);
        mix_fp2(ctx, &p, &q)
    });
    pl.job("fields that come and go", many(th, 240, 6000), recycled_fp);
    c23_for::<W>(&mut pl, th);
    c23_for::<M>(&mut pl, th);
    c23_for::<E>(&mut pl, th);
    pl
}

// ------------------------------------------------------------------ C27

/// Everything observable about a value, internal scaling included.
trait Snap {
    fn snap(&self) -> Vec<u8>;
}
impl Snap for FpElt {
    fn snap(&self) -> Vec<u8> {
        let mut v = self.to_string().into_bytes();
        v.extend(self.to_bytes_be());
        v
    }
}
impl Snap for Fp2Elt {
    fn snap(&self) -> Vec<u8> {
        let mut v = self.to_string().into_bytes();
        v.extend(self.to_bytes_be());
        v
    }
}

/// Evaluates `f` several times over the same operands; results must agree and
/// the operands must not change.
fn pure<A, T: PartialEq>(
    ctx: &mut Ctx,
    what: &dyn Fn() -> String,
    args: &[A],
    snap: &dyn Fn(&A) -> Vec<u8>,
    fs: &[&dyn Fn() -> T],
) -> R<T> {
    let before: Vec<Vec<u8>> = args.iter().map(snap).collect();
    let mut first: Option<T> = None;
    for (i, f) in fs.iter().enumerate() {
        let v = ctx.call(|| format!("{} (form {i})", what()), f)?;
        let after: Vec<Vec<u8>> = args.iter().map(snap).collect();
        ctx.check(before == after, || format!("{} (form {i}) changed an operand", what()))?;
        match &first {
            None => first = Some(v),
            Some(w) => {
                let ok = *w == v;
                ctx.check(ok, || format!("{}: form {i} differs from form 0", what()))?;
            }
        }
    }
    ctx.hit("operations observed in all forms");
    Ok(first.unwrap())
}

macro_rules! forms {
    ($ctx:expr, $snap:expr, $what:expr, $a:expr, $op:tt, $b:expr) => {{
        let (a, b) = ($a, $b);
        let args = [a.clone(), b.clone()];
        // operands watched are the originals, not the clones
        let before = ($snap(a), $snap(b));
        let r = pure($ctx, &|| $what.to_string(), &args, &|x| $snap(x), &[
            &|| $snap(&(a $op b)),
            &|| $snap(&(a.clone() $op b)),
            &|| $snap(&(a $op b.clone())),
            &|| $snap(&(a.clone() $op b.clone())),
            &|| $snap(&(&args[0] $op &args[1])),
            &|| $snap(&(a $op b)),
        ])?;
        $ctx.check(before == ($snap(a), $snap(b)), || format!("{} changed an operand", $what))?;
        r
    }};
}

macro_rules! field_purity {
    ($name:ident, $f:ty, $e:ty) => {
        fn $name(ctx: &mut Ctx, f: &$f, fresh: &dyn Fn() -> $f, xs: &[$e], sqrt: bool) -> R {
            let s = |x: &$e| x.snap();
            let (a, b) = (&xs[0], &xs[1]);
            let mut log: Vec<Vec<u8>> = vec![];
            for round in 0..2 {
                let mut now = vec![];
                now.push(forms!(ctx, s, format!("{a} + {b}"), a, +, b));
                now.push(forms!(ctx, s, format!("{a} - {b}"), a, -, b));
                now.push(forms!(ctx, s, format!("{a} * {b}"), a, *, b));
                now.push(forms!(ctx, s, format!("{a} / {b}"), a, /, b));
                // the same object on both sides
                now.push(forms!(ctx, s, format!("{a} + itself"), a, +, a));
                now.push(forms!(ctx, s, format!("{a} - itself"), a, -, a));
                now.push(forms!(ctx, s, format!("{a} * itself"), a, *, a));
                let c = a.clone();
                let same = lib!(ctx, (a * a).snap() == (a * &c).snap() && (a + a).snap() == (a + &c).snap() && (a - a).snap() == (a - &c).snap(), "clones");
                ensure!(ctx, same, "{a}: an operation with itself differs from one with its clone");
                let args = [a.clone()];
                now.push(pure(ctx, &|| format!("-{a}"), &args, &s, &[&|| (-a).snap(), &|| (-a.clone()).snap(), &|| (-&args[0]).snap()])?);
                now.push(pure(ctx, &|| format!("{a}^2"), &args, &s, &[&|| (a ^ 2u32).snap(), &|| (a.clone() ^ 2u32).snap(), &|| (&args[0] ^ 2u32).snap()])?);
                now.push(pure(ctx, &|| format!("1/{a}"), &args, &s, &[&|| (a ^ -1i32).snap(), &|| (a.clone() ^ -1i32).snap(), &|| (1u32 / &args[0]).snap(), &|| (1u32 / a).snap()])?);
                let e = BigUint::from(5u32);
                let ei = BigInt::from(5);
                now.push(pure(ctx, &|| format!("{a}^5"), &args, &s, &[&|| (a ^ &e).snap(), &|| (a ^ &ei).snap(), &|| (&args[0] ^ &e).snap()])?);
                if sqrt {
                    let sq = lib!(ctx, a * a, "square");
                    let args = [sq.clone()];
                    now.push(pure(ctx, &|| format!("sqrt({a}^2)"), &args, &s, &[&|| sq.sqrt().snap(), &|| args[0].sqrt().snap(), &|| sq.clone().sqrt().snap()])?);
                    now.push(pure(ctx, &|| format!("is_square({a})"), &[a.clone()], &s, &[&|| vec![a.is_square() as u8], &|| vec![a.clone().is_square() as u8]])?);
                }
                now.push(pure(ctx, &|| format!("sgn0({a})"), &[a.clone()], &s, &[&|| vec![a.sgn0() as u8], &|| vec![a.clone().sgn0() as u8]])?);
                let args = [a.clone(), b.clone()];
                let cm = pure(ctx, &|| format!("cmov({a},{b})"), &args, &s, &[
                    &|| (<$e>::cmov(a, b, false).snap(), <$e>::cmov(a, b, true).snap()),
                    &|| (<$e>::cmov(&args[0], &args[1], false).snap(), <$e>::cmov(&args[0], &args[1], true).snap()),
                ])?;
                ensure!(ctx, cm == (a.snap(), b.snap()), "cmov({a},{b}) selects the wrong operand");
                let args = [a.clone()];
                now.push(pure(ctx, &|| format!("encodings of {a}"), &args, &s, &[
                    &|| [a.to_bytes_be(), a.to_bytes_le(), a.to_string().into_bytes()].concat(),
                    &|| [args[0].to_bytes_be(), args[0].to_bytes_le(), args[0].to_string().into_bytes()].concat(),
                ])?);
                // in-place setters act on their own object only
                let mut z = a.clone();
                lib!(ctx, z.set_zero(), "set_zero");
                let mut o = a.clone();
                lib!(ctx, o.set_one(), "set_one");
                let ok = lib!(ctx, z.is_zero() && z == f.zero() && o.is_one() && o == f.one(), "in-place setters");
                ensure!(ctx, ok, "set_zero/set_one of {a} gave {z} and {o}");
                if round == 0 {
                    log = now;
                    // other use of the same field in between
                    for x in xs {
                        let _ = guarded(|| {
                            let y = x * a + b;
                            let _ = y.is_square();
                            if sqrt {
                                let _ = (&y * &y).sqrt();
                                let _ = y.sqrt();
                            }
                            let _ = 1u32 / &y;
                        });
                    }
                } else {
                    ensure!(ctx, log == now, "repeating the operations on {a} and {b} later gave other results");
                    ctx.hit("repetitions");
                }
                ctx.seen(&[&a.snap(), &b.snap(), &f.get_modulus().to_signed_bytes_le()]);
            }
            // a fresh, never used field gives the same results
            let g = fresh();
            let (ab, bb) = (a.to_bytes_be(), b.to_bytes_be());
            let r = lib!(ctx, { let (x, y) = (g.from_bytes_be(&ab).unwrap(), g.from_bytes_be(&bb).unwrap()); [(&x + &y).snap(), (&x - &y).snap(), (&x * &y).snap(), (&x / &y).snap()] }, "fresh field");
            ensure!(ctx, r[..] == log[..4], "a fresh field computes other results for {a} and {b}");
            if sqrt {
                let r = lib!(ctx, { let x = g.from_bytes_be(&ab).unwrap(); (&x * &x).sqrt().snap() }, "fresh field");
                ensure!(ctx, log.contains(&r), "a fresh field computes another square root of {a}^2");
            }
            Ok(())
        }
    };
}

field_purity!(fp_purity, Fp, FpElt);
field_purity!(fp2_purity, Fp2, Fp2Elt);

fn psnap<P: std::fmt::Display + Encode>(p: &P) -> Vec<u8> {
    let mut v = p.to_string().into_bytes();
    v.extend(p.encode(true));
    v.extend(p.encode(false));
    v
}

fn point_purity<C: Cut>(ctx: &mut Ctx, rc: &RC, special: &[RP]) -> R {
    let c = Crv::<C>::new(ctx, rc)?;
    let d = rc.desc();
    let mut pts: Vec<C::P> = vec![];
    for _ in 0..3 {
        let rp = c.some_point(&mut ctx.rng, special);
        let p = c.pt(ctx, &rp)?;
        pts.push(p);
    }
    let g = c.pt(ctx, &rc.g)?;
    pts[1] = c.rescale(ctx, &pts[1], &g)?;
    let n = if rc.f.p.bits() > 200 { BigInt::from(ctx.rng.below(1 << 24)) } else { scalar_int(&mut ctx.rng, &rc.r) };
    let k = c.scalar(ctx, &n)?;
    let (a, b) = (pts[0].clone(), pts[1].clone());
    let s = |x: &C::P| psnap(x);
    let ks = |x: &C::S| {
        let mut v = x.to_bytes_be();
        v.extend(x.to_string().into_bytes());
        v
    };
    let mut log: Vec<Vec<u8>> = vec![];
    for round in 0..2 {
        let args = [a.clone(), b.clone()];
        let (s0, k0) = ((s(&a), s(&b)), ks(&k));
        let mut now = vec![];
        for (w, f) in [
            ("+", &C::add as &dyn Fn(usize, &C::P, &C::P) -> C::P),
            ("-", &C::sub as &dyn Fn(usize, &C::P, &C::P) -> C::P),
        ] {
            now.push(pure(ctx, &|| format!("P {w} Q on {d}"), &args, &s, &[
                &|| s(&f(0, &a, &b)),
                &|| s(&f(1, &a, &b)),
                &|| s(&f(2, &a, &b)),
                &|| s(&f(3, &a, &b)),
                &|| s(&f(0, &args[0], &args[1])),
                &|| s(&f(0, &a, &args[1])),
            ])?);
            // aliasing
            now.push(pure(ctx, &|| format!("P {w} P on {d}"), &args, &s, &[
                &|| s(&f(0, &a, &a)),
                &|| s(&f(0, &a, &args[0])),
                &|| s(&f(3, &args[0], &a)),
            ])?);
        }
        now.push(pure(ctx, &|| format!("-P on {d}"), &args, &s, &[&|| s(&C::neg(0, &a)), &|| s(&C::neg(1, &a)), &|| s(&C::neg(0, &args[0]))])?);
        let mk: Vec<Box<dyn Fn() -> Vec<u8>>> = (0..MUL_FORMS)
            .map(|i| {
                let (a, k) = (a.clone(), k.clone());
                Box::new(move || psnap(&C::mul(i, &a, &k))) as Box<dyn Fn() -> Vec<u8>>
            })
            .collect();
        let mr: Vec<&dyn Fn() -> Vec<u8>> = mk.iter().map(|b| &**b).collect();
        now.push(pure(ctx, &|| format!("{n} * P on {d}"), &args, &s, &mr)?);
        let direct = lib!(ctx, s(&C::mul(0, &a, &k)), "{n} * P on {d}");
        ensure!(ctx, Some(&direct) == now.last(), "{n} * P differs between a value and its clone on {d}");
        now.push(pure(ctx, &|| format!("observers of P on {d}"), &args, &s, &[
            &|| [a.encode(true), a.encode(false), vec![a.is_zero() as u8, c.e.is_on_curve(&a) as u8, (a == b) as u8, (a == a.clone()) as u8]].concat(),
            &|| [args[0].encode(true), args[0].encode(false), vec![args[0].is_zero() as u8, c.e.is_on_curve(&args[0]) as u8, (args[0] == args[1]) as u8, (args[0] == a) as u8]].concat(),
        ])?);
        // normalisation acts on its own object only
        let mut t = b.clone();
        lib!(ctx, C::normalize(&mut t), "normalize on {d}");
        let eq = lib!(ctx, t == b, "comparison on {d}");
        ensure!(ctx, eq, "normalising a clone changed the element on {d}");
        ensure!(ctx, s0 == (s(&a), s(&b)) && k0 == ks(&k), "an operand was changed on {d}");
        if round == 0 {
            log = now;
            // any other use of the same curve and field
            let _ = guarded(|| {
                let x = C::add(0, &pts[2], &a);
                let y = C::mul(0, &x, &k);
                let e = y.encode(true);
                let _ = c.e.decode(&e);
                let _ = c.e.decode(&[2, 0]);
                let _ = c.f.from(2u32).sqrt();
                let _ = C::sub(0, &y, &b);
            });
        } else {
            ensure!(ctx, log == now, "repeating the operations later gave other results on {d}");
            ctx.hit("repetitions");
        }
    }
    ctx.seen(&[d.as_bytes(), &s(&a), &s(&b), &ks(&k)]);
    // scalars
    let m = scalar_int(&mut ctx.rng, &rc.r);
    let (x, y) = (k.clone(), c.scalar(ctx, &m)?);
    let args = [x.clone(), y.clone()];
    for (w, f) in [
        ("+", &C::sadd as &dyn Fn(usize, &C::S, &C::S) -> C::S),
        ("-", &C::ssub as &dyn Fn(usize, &C::S, &C::S) -> C::S),
        ("*", &C::smul as &dyn Fn(usize, &C::S, &C::S) -> C::S),
        ("/", &C::sdiv as &dyn Fn(usize, &C::S, &C::S) -> C::S),
    ] {
        pure(ctx, &|| format!("scalars {n} {w} {m} (order {})", rc.r), &args, &ks, &[
            &|| ks(&f(0, &x, &y)),
            &|| ks(&f(1, &x, &y)),
            &|| ks(&f(2, &x, &y)),
            &|| ks(&f(3, &x, &y)),
            &|| ks(&f(0, &args[0], &args[1])),
        ])?;
        pure(ctx, &|| format!("scalar {n} {w} itself (order {})", rc.r), &args, &ks, &[&|| ks(&f(0, &x, &x)), &|| ks(&f(0, &x, &args[0])), &|| ks(&f(3, &x, &x))])?;
    }
    pure(ctx, &|| format!("-{n} (order {})", rc.r), &args, &ks, &[&|| ks(&C::sneg(0, &x)), &|| ks(&C::sneg(1, &x))])?;
    pure(ctx, &|| format!("bits of {n} (order {})", rc.r), &args, &ks, &[
        &|| (C::bits_lr(&x), C::bits_rl(&x)),
        &|| (C::bits_lr(&args[0]), C::bits_rl(&args[0])),
        &|| (C::bits_lr(&x), C::bits_rl(&x)),
    ])?;
    Ok(())
}

/// `clone` and `clone_from` produce values that are the source in every respect
/// and share nothing with what they replace.
fn cloning<T: Clone>(ctx: &mut Ctx, what: &str, vals: &[T], obs: &dyn Fn(&T) -> Vec<u8>) -> R {
    let o: Vec<Vec<u8>> = lib!(ctx, vals.iter().map(obs).collect(), "observing {what}");
    for i in 0..vals.len() {
        for j in 0..vals.len() {
            let mut d = lib!(ctx, vals[i].clone(), "clone of {what}");
            lib!(ctx, d.clone_from(&vals[j]), "clone_from of {what}");
            let got = lib!(ctx, obs(&d), "observing {what}");
            ensure!(ctx, got == o[j], "{what}: value {i} overwritten by clone_from with value {j} is not that value");
            let got = lib!(ctx, obs(&d.clone()), "observing {what}");
            ensure!(ctx, got == o[j], "{what}: a clone of value {j} is not that value");
            let same = lib!(ctx, obs(&vals[i]) == o[i] && obs(&vals[j]) == o[j], "observing {what}");
            ensure!(ctx, same, "{what}: clone_from changed value {i} or {j}");
            // back and forth
            lib!(ctx, d.clone_from(&vals[i]), "clone_from of {what}");
            let got = lib!(ctx, obs(&d), "observing {what}");
            ensure!(ctx, got == o[i], "{what}: value {j} overwritten by clone_from with value {i} is not that value");
        }
    }
    let mut v = vals.to_vec();
    v.reverse();
    lib!(ctx, v.clone_from(&vals.to_vec()), "clone_from of a list of {what}");
    let same = lib!(ctx, v.iter().zip(&o).all(|(x, y)| obs(x) == *y), "observing {what}");
    ensure!(ctx, same, "{what}: a list overwritten by clone_from differs");
    ctx.hit("clones in place");
    Ok(())
}

fn clone_fields(ctx: &mut Ctx) -> R {
    let ps: Vec<N> = (0..2).map(|_| super::fields::big_prime(ctx, 400, |m| m % 4 == 3)).collect();
    let (mut fs, mut f2s, mut xs, mut us): (Vec<Fp>, Vec<Fp2>, Vec<FpElt>, Vec<Fp2Elt>) = Default::default();
    for p in &ps {
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        let f2 = lib!(ctx, Fp2::new(p.clone()), "Fp2::new");
        for k in 0..3 {
            let (a, b) = (gen::elt(&mut ctx.rng, p), gen::elt(&mut ctx.rng, p));
            xs.push(lib!(ctx, f.elt(bi(&a)), "elt"));
            us.push(lib!(ctx, FromFactory::from(&f2, format!("{a},{b}").as_str()), "from"));
            if k == 0 && ctx.rng.bool() {
                let _ = lib!(ctx, xs.last().unwrap().sqrt(), "sqrt");
            }
        }
        xs.push(lib!(ctx, f.zero(), "zero"));
        fs.push(f);
        f2s.push(f2);
    }
    // what an element is shows in what it computes
    cloning(ctx, "prime-field elements", &xs, &|x| {
        [x.snap(), (x + x).snap(), (x * x).snap(), (-x).snap(), (1u32 / x).snap(), vec![x.is_square() as u8, x.sgn0() as u8, x.is_zero() as u8], (x * x).sqrt().snap()].concat()
    })?;
    cloning(ctx, "elements of quadratic extensions", &us, &|x| {
        [x.snap(), (x + x).snap(), (x * x).snap(), (-x).snap(), (1u32 / x).snap(), vec![x.is_square() as u8, x.sgn0() as u8, x.is_zero() as u8]].concat()
    })?;
    cloning(ctx, "prime fields", &fs, &|f| {
        let x = f.elt(BigInt::from(-5));
        [f.get_modulus().to_signed_bytes_le(), f.size_bytes().to_le_bytes().to_vec(), f.one().snap(), x.snap(), (&x * &x).sqrt().snap(), vec![fs.iter().map(|g| g == f).fold(0, |a, b| 2 * a + b as u8)]].concat()
    })?;
    cloning(ctx, "quadratic extensions", &f2s, &|f| {
        let x: Fp2Elt = FromFactory::from(f, "-5,7");
        [f.get_modulus().to_signed_bytes_le(), f.size_bytes().to_le_bytes().to_vec(), f.one().snap(), x.snap(), (&x * &x).snap(), vec![f2s.iter().map(|g| g == f).fold(0, |a, b| 2 * a + b as u8)]].concat()
    })?;
    // setting a clone to zero or one leaves the source alone
    for x in &xs {
        let mut d = lib!(ctx, xs[0].clone(), "clone");
        let s0 = lib!(ctx, x.snap(), "observing");
        lib!(ctx, { d.clone_from(x); d.set_one(); d.clone_from(x); d.set_zero() }, "setting a clone");
        let same = lib!(ctx, x.snap() == s0 && d.is_zero(), "observing");
        ensure!(ctx, same, "setting a clone of {x} to zero or one changed it");
    }
    ctx.seen(&[&ps[0].to_bytes_le(), &ps[1].to_bytes_le(), &xs[0].snap()]);
    Ok(())
}

fn clone_curves<C: Cut>(ctx: &mut Ctx, named: &[RC]) -> R
where
    C::E: Clone,
    C::P: Clone,
    C::S: Clone,
{
    let (mut es, mut pts, mut ks) = (vec![], vec![], vec![]);
    for _ in 0..2 {
        let (rc, special) = super::curves::mixed_curve(ctx, C::KIND, named);
        let c = Crv::<C>::new(ctx, &rc)?;
        let rp = c.some_point(&mut ctx.rng, &special);
        let p = c.pt(ctx, &rp)?;
        let g = c.pt(ctx, &rc.g)?;
        pts.push(c.rescale(ctx, &p, &g)?);
        pts.push(c.pt(ctx, &RP::O)?);
        for _ in 0..2 {
            let n = scalar_int(&mut ctx.rng, &rc.r);
            ks.push(c.scalar(ctx, &n)?);
        }
        ctx.seen(&[rc.desc().as_bytes(), &lib!(ctx, psnap(&pts[0]), "observing")]);
        es.push(c.e.clone());
    }
    let k3 = |e: &C::E| C::mul(0, &e.get_generator(), &e.new_scalar(BigInt::from(3)));
    cloning(ctx, &format!("{:?} curves", C::KIND), &es, &|e| {
        [e.get_order().to_bytes_le(), e.get_cofactor().to_signed_bytes_le(), e.get_field().get_modulus().to_signed_bytes_le(), psnap(&e.identity()), psnap(&k3(e)), e.new_scalar(BigInt::from(-1)).to_bytes_be()].concat()
    })?;
    cloning(ctx, &format!("{:?} points", C::KIND), &pts, &|p| {
        let mut n = p.clone();
        C::normalize(&mut n);
        [psnap(p), psnap(&C::add(0, p, p)), psnap(&C::neg(0, p)), psnap(&n), vec![p.is_zero() as u8, pts.iter().map(|q| q == p).fold(0, |a, b| 2 * a + b as u8)]].concat()
    })?;
    cloning(ctx, &format!("{:?} scalars", C::KIND), &ks, &|k| {
        let b: Vec<u8> = C::bits_lr(k).into_iter().map(|b| b as u8).collect();
        [k.to_bytes_be(), k.to_bytes_le(), k.to_string().into_bytes(), b, C::sadd(0, k, k).to_bytes_be(), C::smul(0, k, k).to_bytes_be(), C::sneg(0, k).to_bytes_be()].concat()
    })
}

/// A map is a function of u alone: not of previous calls, clones or instances.
fn map_purity<C: Cut>(
    ctx: &mut Ctx,
    name: &str,
    make: &dyn Fn() -> Box<dyn MapToCurve<E = C::E>>,
    f: &Fp,
) -> R {
    let m = ctx.call(|| format!("creating {name}"), make)?;
    let m2 = ctx.call(|| format!("creating {name}"), make)?;
    let p = f.get_modulus().to_biguint().unwrap();
    let us: Vec<N> = (0..4).map(|i| if i == 0 { N::zero() } else { gen::elt(&mut ctx.rng, &p) }).collect();
    let mut first = vec![];
    for u in &us {
        let x = lib!(ctx, f.elt(bi(u)), "elt");
        let before = x.snap();
        first.push(lib!(ctx, psnap(&m.map(&x)), "{name} of {u}"));
        ensure!(ctx, before == x.snap(), "{name} changed its input {u}");
    }
    for (i, u) in us.iter().enumerate().rev() {
        let f2 = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        let again = lib!(ctx, psnap(&m.map(&f2.elt(bi(u)))), "{name} of {u}");
        let other = lib!(ctx, psnap(&m2.map(&f.elt(bi(u)))), "{name} of {u}");
        ensure!(ctx, again == first[i] && other == first[i], "{name} of {u} depends on history or instance");
        ctx.seen(&[name.as_bytes(), &u.to_bytes_le()]);
    }
    ctx.hit("maps repeated");
    Ok(())
}

fn all_maps(ctx: &mut Ctx, which: u64) -> R {
    type W0 = Box<dyn MapToCurve<E = weierstrass::Curve>>;
    type M0 = Box<dyn MapToCurve<E = montgomery::Curve>>;
    type E0 = Box<dyn MapToCurve<E = edwards::Curve>>;
    match which {
        0 => {
            let e = ins::P256.get();
            let f = e.get_field();
            let z = FromFactory::from(&f, -10);
            let s = weierstrass::SSWU::new(e.clone(), z);
            map_purity::<W>(ctx, "SSWU on P256", &|| Box::new(s.clone()) as W0, &f)?;
            let z = FromFactory::from(&f, -3);
            map_purity::<W>(ctx, "SvdW on P256", &|| Box::new(weierstrass::SVDW::new(e.clone(), FpElt::clone(&z))) as W0, &f)
        }
        1 => {
            let e = ins::SECP256K1.get();
            let f = e.get_field();
            map_purity::<W>(ctx, "SSWUAB0 on secp256k1", &|| {
                Box::new(weierstrass::SSWUAB0::new(e.clone(), FromFactory::from(&f, -11), Box::new(ins::get_isogeny_secp256k1()))) as W0
            }, &f)
        }
        2 => {
            let e = ins::BLS12381G1.get();
            let f = e.get_field();
            map_purity::<W>(ctx, "SSWUAB0 on bls12381_g1", &|| {
                Box::new(weierstrass::SSWUAB0::new(e.clone(), FromFactory::from(&f, 11), Box::new(ins::get_isogeny_bls12381g1()))) as W0
            }, &f)
        }
        3 => {
            let e = ins::CURVE25519.get();
            let f = e.get_field();
            map_purity::<M>(ctx, "Elligator2 on curve25519", &|| Box::new(montgomery::Ell2::new(e.clone(), FromFactory::from(&f, 2))) as M0, &f)?;
            let e = ins::EDWARDS25519.get();
            map_purity::<E>(ctx, "Elligator2 on edwards25519", &|| {
                Box::new(edwards::Ell2::new(e.clone(), FromFactory::from(&f, 2), Some(Box::new(ins::edwards25519_to_curve25519())))) as E0
            }, &f)
        }
        _ => {
            let e = ins::CURVE448.get();
            let f = e.get_field();
            map_purity::<M>(ctx, "Elligator2 on curve448", &|| Box::new(montgomery::Ell2::new(e.clone(), FromFactory::from(&f, -1))) as M0, &f)?;
            let e = ins::EDWARDS448.get();
            map_purity::<E>(ctx, "Elligator2 on edwards448", &|| {
                Box::new(edwards::Ell2::new(e.clone(), FromFactory::from(&f, -1), Some(Box::new(ins::edwards448_to_curve448())))) as E0
            }, &f)
        }
    }
}

pub fn c27(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C27",
        "a case is one tuple of operands on which every operation is evaluated in all operand forms (value, reference, same object, clone), twice with other use of the same field or curve in between, all observable state of the operands being compared before and after; distinct = distinct (structure, operands)",
    );
    pl.must_hit = vec!["operations observed in all forms", "repetitions", "maps repeated", "clones in place"];
    let sq = |p: &N| super::fields::sqrt_ok((p % 16u32).to_u32_digits().first().copied().unwrap_or(0));
    pl.job("prime fields", many(th, 400, 12000), move |ctx| {
        let p = super::fields::big_prime(ctx, 530, |_| true);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        let mut xs = vec![];
        for _ in 0..4 {
            let a = gen::elt(&mut ctx.rng, &p);
            xs.push(lib!(ctx, f.elt(bi(&a)), "elt"));
        }
        fp_purity(ctx, &f, &|| Fp::new(p.clone()), &xs, sq(&p))
    });
    pl.job("quadratic extensions", many(th, 200, 6000), move |ctx| {
        let p = super::fields::big_prime(ctx, 400, |m| m % 4 == 3);
        let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new");
        let mut xs: Vec<Fp2Elt> = vec![];
        for _ in 0..4 {
            let (a, b) = (gen::elt(&mut ctx.rng, &p), gen::elt(&mut ctx.rng, &p));
            xs.push(lib!(ctx, FromFactory::from(&f, format!("{a},{b}").as_str()), "from"));
        }
        fp2_purity(ctx, &f, &|| Fp2::new(p.clone()), &xs, true)
    });
    fn pts<C: Cut>(pl: &mut Plan, th: bool) {
        let named = named_rcs(C::KIND);
        pl.job(format!("{:?} points and scalars", C::KIND), many(th, 160, 4000), move |ctx| {
            let (rc, special) = super::curves::mixed_curve(ctx, C::KIND, &named);
            ctx.sample(|| rc.desc());
            point_purity::<C>(ctx, &rc, &special)
        });
    }
    pts::<W>(&mut pl, th);
    pts::<M>(&mut pl, th);
    pts::<E>(&mut pl, th);
    pl.job("maps", many(th, 10, 300), |ctx| all_maps(ctx, ctx.case % 5));
    pl.job("clones of fields", many(th, 100, 4000), clone_fields);
    fn clones<C: Cut>(pl: &mut Plan, th: bool) {
        let named = named_rcs(C::KIND);
        pl.job(format!("{:?} clones", C::KIND), many(th, 60, 2000), move |ctx| clone_curves::<C>(ctx, &named));
    }
    clones::<W>(&mut pl, th);
    clones::<M>(&mut pl, th);
    clones::<E>(&mut pl, th);
    pl
}
