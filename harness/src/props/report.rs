//! C29 (fields report themselves), C30 (curves from user-supplied parameters).
use super::curves::{encode_check, scalar_full};
use super::fields::{self, all2, elt2, is_fp, is_fp2, mk2, numeral, sqrt_ok, G, N2};
use super::{many, sz};
use crate::cut::*;
use crate::gen::{self, big, Rng};
use crate::mon::{guarded, Ctx, Plan, R};
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::ops::Serialize;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};

/// The decimal numerals in a text, in order.
pub fn numerals(s: &str) -> Vec<N> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect()
}

/// Does a decimal numeral of the text denote n?
fn mentions(s: &str, n: &N) -> bool {
    numerals(s).contains(n)
}

// ------------------------------------------------------------------ C29

/// What both kinds of field must report about themselves.
macro_rules! self_report {
    ($ctx:expr, $f:expr, $p:expr, $size:expr, $what:expr) => {{
        let n = lib!($ctx, $f.get_modulus(), "get_modulus of {}", $what);
        ensure!($ctx, n == bi($p), "{} reports the modulus {n}", $what);
        let n = lib!($ctx, $f.size_bytes(), "size_bytes of {}", $what);
        ensure!($ctx, n == $size, "{} reports elements of {n} bytes instead of {}", $what, $size);
        let s = lib!($ctx, $f.to_string(), "printing {}", $what);
        ensure!($ctx, mentions(&s, $p), "{} prints {s:?}, without its modulus", $what);
        for (e, zero, one) in [(lib!($ctx, $f.zero(), "zero"), true, false), (lib!($ctx, $f.one(), "one"), false, true)] {
            let z = lib!($ctx, e.is_zero(), "is_zero");
            let o = lib!($ctx, e.is_one(), "is_one");
            ensure!($ctx, z == zero && o == one, "{}: zero() or one() is not what it says: {e}, is_zero {z}, is_one {o}", $what);
            let b = lib!($ctx, e.to_bytes_be(), "to_bytes_be");
            ensure!($ctx, b.len() == $size, "{}: {e} encodes to {} bytes instead of {}", $what, b.len(), $size);
        }
        $ctx.hit("field reports");
    }};
}

/// Neutral elements, predicates, in-place setters and selection, for elements x, y
/// of which (xz, xo) tells whether x is zero or one.
macro_rules! element_report {
    ($ctx:expr, $f:expr, $x:expr, $y:expr, $xz:expr, $xo:expr, $elt:ty, $what:expr) => {{
        let (x, y) = ($x, $y);
        let z = lib!($ctx, x.is_zero(), "is_zero({x}) in {}", $what);
        ensure!($ctx, z == $xz, "{}: is_zero({x}) = {z}", $what);
        let o = lib!($ctx, x.is_one(), "is_one({x}) in {}", $what);
        ensure!($ctx, o == $xo, "{}: is_one({x}) = {o}", $what);
        let (zero, one) = (lib!($ctx, $f.zero(), "zero"), lib!($ctx, $f.one(), "one"));
        let k = $ctx.rng.below(2);
        let same = lib!(
            $ctx,
            if k == 0 {
                &x + &zero == x && &zero + &x == x && &x - &zero == x && &x * &one == x && &one * &x == x && &x / &one == x && &x * &zero == zero
            } else {
                x.clone() + zero.clone() == x && zero.clone() + x.clone() == x && x.clone() * one.clone() == x && zero.clone() * x.clone() == zero && &zero / &x == zero
            },
            "neutral elements with {x} in {}",
            $what
        );
        ensure!($ctx, same, "{}: zero or one is not neutral for {x}", $what);
        // in place: only that value changes, and it stays usable
        let keep = x.clone();
        let mut m = x.clone();
        lib!($ctx, m.set_zero(), "set_zero({x}) in {}", $what);
        let ok = lib!($ctx, m == zero && m.is_zero() && keep == x && &y + &m == y && m.to_bytes_be() == zero.to_bytes_be() && m.to_string() == zero.to_string(), "using {x} after set_zero");
        ensure!($ctx, ok, "{}: {x} after set_zero is {m}, or its clone changed", $what);
        let mut m = x.clone();
        lib!($ctx, m.set_one(), "set_one({x}) in {}", $what);
        let ok = lib!($ctx, m == one && m.is_one() && keep == x && &y * &m == y && m.to_bytes_be() == one.to_bytes_be() && m.to_string() == one.to_string(), "using {x} after set_one");
        ensure!($ctx, ok, "{}: {x} after set_one is {m}, or its clone changed", $what);
        // selection
        let (x0, y0) = (x.clone(), y.clone());
        let a = lib!($ctx, <$elt as CMov>::cmov(&x, &y, false), "cmov({x}, {y}, false) in {}", $what);
        let b = lib!($ctx, <$elt as CMov>::cmov(&x, &y, true), "cmov({x}, {y}, true) in {}", $what);
        let ok = lib!($ctx, a == x && b == y && x == x0 && y == y0 && a.to_bytes_be() == x0.to_bytes_be() && b.to_bytes_be() == y0.to_bytes_be(), "comparison");
        ensure!($ctx, ok, "{}: cmov({x}, {y}) selects {a} when false and {b} when true", $what);
        $ctx.hit("selections");
        if $xz {
            $ctx.hit("computed or given zero");
        }
        if $xo {
            $ctx.hit("computed or given one");
        }
    }};
}

/// Selection between elements of two different fields: the named operand, in its own
/// field, or a refusal; never the other operand.
macro_rules! foreign_selection {
    ($ctx:expr, $x:expr, $y:expr, $elt:ty, $what:expr) => {{
        let (x, y) = ($x, $y);
        for (b, want) in [(false, &x), (true, &y)] {
            let got = guarded(|| <$elt as CMov>::cmov(&x, &y, b));
            if let Ok(g) = got {
                let ok = lib!($ctx, g == *want && *want == g && (&g - want).is_zero() && g.to_bytes_be() == want.to_bytes_be(), "comparison");
                ensure!($ctx, ok, "cmov between {x} and {y} of {} selects {g} when {b}", $what);
            }
        }
        $ctx.hit("selections between fields");
    }};
}

fn fp_report(ctx: &mut Ctx, p: &N, vals: &[N]) -> R {
    let m = F::new(p);
    let f = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
    self_report!(ctx, f, p, m.size(), format!("the field of {p}"));
    let twin = lib!(ctx, Fp::new(p.clone()), "Fp::new({p})");
    let mut last = lib!(ctx, twin.one(), "one");
    for a in vals {
        let x = lib!(ctx, f.elt(bi(a)), "elt({a})");
        let b = ctx.rng.pick(vals).clone();
        let own = ctx.rng.bool();
        let y = lib!(ctx, if own { f.elt(bi(&b)) } else { twin.elt(bi(&b)) }, "elt({b})");
        element_report!(ctx, f, x.clone(), y.clone(), a.is_zero(), a.is_one(), FpElt, format!("GF({p})"));
        // zeros and ones which were computed
        let c = ctx.rng.below(6);
        let (e, n) = lib!(
            ctx,
            match c {
                0 => (&x - &x, N::zero()),
                1 => (&x + &(-&x), N::zero()),
                2 => (&x * &f.zero(), N::zero()),
                3 if !a.is_zero() => (&x / &x, N::one()),
                4 if !a.is_zero() => (&x * &(1u32 / &x), N::one()),
                5 => (&x ^ &BigInt::zero(), N::one()),
                _ => (-&f.zero(), N::zero()),
            },
            "computing a neutral element from {a}"
        );
        element_report!(ctx, f, e.clone(), last.clone(), n.is_zero(), n.is_one(), FpElt, format!("GF({p})"));
        is_fp(ctx, &f, &m, &e, &n, || format!("a neutral element computed from {a} (way {c})"))?;
        last = x;
        ctx.seen(&[&p.to_bytes_le(), &a.to_bytes_le(), &b.to_bytes_le()]);
    }
    // an element of another field, with the same residue or another
    let q = gen::near_prime(&mut ctx.rng, p, |_| true);
    if let Some(q) = q {
        let h = lib!(ctx, Fp::new(q.clone()), "Fp::new({q})");
        for a in vals.iter().filter(|a| **a < q).take(6) {
            let b = if ctx.rng.bool() { a.clone() } else { gen::elt(&mut ctx.rng, &q) };
            let (x, y) = (lib!(ctx, f.elt(bi(a)), "elt"), lib!(ctx, h.elt(bi(&b)), "elt"));
            foreign_selection!(ctx, x.clone(), y.clone(), FpElt, format!("GF({p}) and GF({q})"));
            foreign_selection!(ctx, y, x, FpElt, format!("GF({q}) and GF({p})"));
        }
    }
    // whatever was done with it, the field reports the same
    if sqrt_ok((p % 16u32).to_u32_digits().first().copied().unwrap_or(0)) {
        let _ = lib!(ctx, last.sqrt(), "sqrt");
    }
    let _ = lib!(ctx, last.is_square(), "is_square");
    self_report!(ctx, f, p, m.size(), format!("the field of {p} after use"));
    let g = lib!(ctx, f.clone(), "clone");
    drop(f);
    self_report!(ctx, g, p, m.size(), format!("a clone of the field of {p}"));
    let ok = lib!(ctx, g == twin && last == twin.elt(bi(vals.last().unwrap())), "comparison");
    ensure!(ctx, ok, "two fields of {p} differ after use");
    Ok(())
}

fn fp2_report(ctx: &mut Ctx, p: &N, vals: &[N2]) -> R {
    let g = G(F::new(p));
    let f = lib!(ctx, Fp2::new(p.clone()), "Fp2::new({p})");
    let what = format!("the extension of {p}");
    self_report!(ctx, f, p, 2 * g.0.size(), what);
    for u in vals {
        let v = ctx.rng.pick(vals).clone();
        let (x, y) = (mk2(ctx, &f, u)?, mk2(ctx, &f, &v)?);
        let isz = u.0.is_zero() && u.1.is_zero();
        let iso = u.0.is_one() && u.1.is_zero();
        element_report!(ctx, f, x.clone(), y.clone(), isz, iso, Fp2Elt, what);
        let s = lib!(ctx, x.to_string(), "printing");
        let ns = numerals(&s);
        ensure!(ctx, mentions(&s, &u.0) && mentions(&s, &u.1), "{what}: {u:?} prints {s:?} ({ns:?})");
        let c = ctx.rng.below(4);
        let e = lib!(
            ctx,
            match c {
                0 => &x - &x,
                1 if !isz => &x / &x,
                2 if !isz => &x * &(1u32 / &x),
                3 => &x ^ &BigInt::zero(),
                _ => -&f.zero(),
            },
            "computing a neutral element from {u:?}"
        );
        let one = c == 3 || (!isz && (c == 1 || c == 2));
        element_report!(ctx, f, e.clone(), y.clone(), !one, one, Fp2Elt, what);
        // one coordinate only is neither zero nor one
        is_fp2(ctx, &f, &g, &e, &(if one { N::one() } else { N::zero() }, N::zero()), || format!("a neutral element computed from {u:?}"))?;
        if u.0.is_zero() != u.1.is_zero() {
            ctx.hit("one coordinate zero");
        }
        ctx.seen(&[b"ext", &p.to_bytes_le(), &g.be(u), &g.be(&v)]);
    }
    let q = gen::near_prime(&mut ctx.rng, p, |m| m % 4 == 3);
    if let Some(q) = q {
        let h = lib!(ctx, Fp2::new(q.clone()), "Fp2::new({q})");
        for u in vals.iter().filter(|u| u.0 < q && u.1 < q).take(6) {
            let v = if ctx.rng.bool() { u.clone() } else { elt2(&mut ctx.rng, &q) };
            let (x, y) = (mk2(ctx, &f, u)?, mk2(ctx, &h, &v)?);
            foreign_selection!(ctx, x.clone(), y.clone(), Fp2Elt, format!("the extensions of {p} and {q}"));
            foreign_selection!(ctx, y, x, Fp2Elt, format!("the extensions of {q} and {p}"));
        }
    }
    if let Some(u) = vals.iter().find(|u| g.is_square(u)) {
        let x = mk2(ctx, &f, u)?;
        let _ = lib!(ctx, x.sqrt(), "sqrt");
        let _ = lib!(ctx, x.sgn0(), "sgn0");
    }
    let h = lib!(ctx, f.clone(), "clone");
    drop(f);
    self_report!(ctx, h, p, 2 * g.0.size(), format!("a clone of {what} after use"));
    Ok(())
}

/// Moduli around the ends of bytes and machine words.
fn edge_prime(rng: &mut Rng, k: usize, ok: impl Fn(u32) -> bool) -> N {
    let edges = [8usize, 16, 24, 32, 40, 56, 64, 72, 96, 128, 192, 256, 320, 384, 512, 520, 640];
    let b = edges[k % edges.len()];
    gen::rand_prime(rng, b + (k / edges.len()) % 3 - usize::from((k / edges.len()) % 3 == 2) * 3, ok)
}

pub fn c29(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C29",
        "a case is one field (prime, or quadratic extension for p = 3 mod 4) asked for its modulus, size, printed form and neutral elements before and after use, and one pair of elements put through the predicates, in-place setters and selection, the neutral elements given and computed; distinct = distinct (field, pair)",
    );
    pl.must_hit = vec!["field reports", "selections", "computed or given zero", "computed or given one", "one coordinate zero", "sizes at byte ends", "selections between fields"];
    let primes = gen::small_primes(sz(th, 400, 1500));
    pl.job("tiny fields", primes.len() as u64, move |ctx| {
        let p = primes[ctx.case as usize];
        let vals: Vec<N> = if p < 80 { (0..p).map(big).collect() } else { [0, 1, 2, p - 1, p - 2, p / 2, p / 2 + 1].into_iter().map(big).collect() };
        fp_report(ctx, &big(p), &vals)?;
        if p % 4 == 3 {
            let v = if p < 12 { all2(p) } else { (0..40).map(|_| elt2(&mut ctx.rng, &big(p))).collect() };
            fp2_report(ctx, &big(p), &v)?;
        }
        Ok(())
    });
    pl.job("large fields", many(th, 1200, 20000), |ctx| {
        let ext = ctx.rng.bool();
        let k = ctx.case as usize / 2;
        let p = if ctx.case % 2 == 0 {
            ctx.hit("sizes at byte ends");
            edge_prime(&mut ctx.rng, k, |m| !ext || m % 4 == 3)
        } else {
            fields::big_prime(ctx, 600, |m| !ext || m % 4 == 3)
        };
        if ext {
            let mut v: Vec<N2> = vec![(N::zero(), N::zero()), (N::one(), N::zero()), (N::zero(), N::one()), (N::one(), N::one())];
            v.extend((0..4).map(|_| elt2(&mut ctx.rng, &p)));
            fp2_report(ctx, &p, &v)
        } else {
            let mut v: Vec<N> = vec![N::zero(), N::one(), &p - 1u32];
            v.extend((0..5).map(|_| gen::elt(&mut ctx.rng, &p)));
            ctx.sample(|| format!("p={p} values {v:?}"));
            fp_report(ctx, &p, &v)
        }
    });
    fields::giant_job(&mut pl, th, 8, |ctx, p| {
        let m = F::new(p);
        let f = lib!(ctx, Fp::new(p.clone()), "Fp::new");
        self_report!(ctx, f, p, m.size(), format!("the field of {p}"));
        let f2 = lib!(ctx, Fp2::new(p.clone()), "Fp2::new");
        self_report!(ctx, f2, p, 2 * m.size(), format!("the extension of {p}"));
        for _ in 0..4 {
            let (a, b) = (gen::elt(&mut ctx.rng, p), gen::elt(&mut ctx.rng, p));
            let (x, y) = (lib!(ctx, f.elt(bi(&a)), "elt"), lib!(ctx, f.elt(bi(&b)), "elt"));
            let z = lib!(ctx, &x - &x, "x-x");
            let ok = lib!(ctx, z.is_zero() && x.is_zero() == a.is_zero() && x.is_one() == a.is_one() && FpElt::cmov(&x, &y, false) == x && FpElt::cmov(&x, &y, true) == y, "predicates and selection");
            ensure!(ctx, ok, "mod {p}: predicates or selection for {a} and {b}");
        }
        Ok(())
    });
    pl
}

// ------------------------------------------------------------------ C30

/// Any spelling of n modulo p.
fn spell(rng: &mut Rng, n: &N, p: &N) -> &'static str {
    let v = match rng.below(5) {
        0 => bi(n),
        1 => bi(n) - bi(p),
        2 => bi(n) + bi(p) * BigInt::from(1 + rng.below(5)),
        3 => bi(n) - bi(p) * BigInt::from(1 + rng.below(5)),
        _ => bi(n) + bi(&(rng.bits(70) * p)),
    };
    intern(&numeral(rng, &v))
}

/// Parses the affine point a printed point denotes (coordinates are projective).
fn printed_point(rc: &RC, s: &str) -> Option<RP> {
    let get = |k: char| -> Option<N> {
        s.lines().find_map(|l| {
            let (h, t) = l.split_once(':')?;
            (h.trim() == k.to_string()).then(|| t.trim().parse().ok())?
        })
    };
    let (x, y, z) = (get('x')?, get('y')?, get('z')?);
    let f = &rc.f;
    if [&x, &y, &z].iter().any(|v| **v >= f.p) {
        return None;
    }
    if z.is_zero() {
        return (rc.kind != Kind::E && x.is_zero() && !y.is_zero()).then_some(RP::O);
    }
    let i = f.inv(&z);
    let q = RP::A(f.mul(&x, &i), f.mul(&y, &i));
    if rc.kind == Kind::E {
        let t = get('t')?;
        if f.mul(&t, &z) != f.mul(&x, &y) {
            return None;
        }
    }
    Some(q)
}

fn curve_report<C: Cut>(ctx: &mut Ctx, rc: &RC, e: &C::E, how: &str) -> R {
    let d = rc.desc();
    let r = lib!(ctx, e.get_order(), "get_order");
    ensure!(ctx, r == rc.r, "{how}: the order of {d} is reported as {r}");
    let h = lib!(ctx, e.get_cofactor(), "get_cofactor");
    ensure!(ctx, h == bi(&rc.h), "{how}: the cofactor of {d} is reported as {h}");
    let f = lib!(ctx, e.get_field(), "get_field");
    let p = lib!(ctx, f.get_modulus(), "get_modulus");
    let size = lib!(ctx, f.size_bytes(), "size_bytes");
    let fresh = lib!(ctx, f == Fp::new(rc.f.p.clone()), "field comparison");
    ensure!(ctx, p == bi(&rc.f.p) && size == rc.f.size() && fresh, "{how}: {d} reports the field of {p} with {size} bytes");
    let s = lib!(ctx, e.to_string(), "printing the curve");
    ensure!(ctx, mentions(&s, &rc.a) && mentions(&s, &rc.b), "{how}: {d} prints {s:?}, without its coefficients");
    let g = lib!(ctx, e.get_generator(), "get_generator of {d}");
    let b = lib!(ctx, g.encode(false), "encoding");
    ensure!(ctx, b == rc.encode(&rc.g, false), "{how}: the base point of {d} is reported as {b:?}");
    let o = lib!(ctx, e.identity(), "identity of {d}");
    let z = lib!(ctx, o.is_zero(), "is_zero");
    let b = lib!(ctx, o.encode(false), "encoding");
    ensure!(ctx, z && b == rc.encode(&rc.id(), false), "{how}: the identity of {d} is reported as {b:?}, is_zero {z}");
    for (q, w) in [(&g, &rc.g), (&o, &rc.id())] {
        let s = lib!(ctx, q.to_string(), "printing a point of {d}");
        let got = printed_point(rc, &s);
        ensure!(ctx, got.as_ref().is_some_and(|q| q == w || (rc.is_id(q) && rc.is_id(w))), "{how}: {w} of {d} prints {s:?}");
        let on = lib!(ctx, e.is_on_curve(q), "is_on_curve");
        ensure!(ctx, on, "{how}: {d} denies containing {w}");
    }
    let k = gen::int(&mut ctx.rng, &rc.r);
    let n = F::new(&rc.r).lift(&k);
    let s = lib!(ctx, e.new_scalar(k.clone()), "new_scalar({k})");
    scalar_full::<C>(ctx, &s, &n, &rc.r)?;
    ctx.hit("curve reports");
    Ok(())
}

/// One curve in several spellings and one off-curve base point.
fn params_case<C: Cut>(ctx: &mut Ctx, rc: &RC, group: bool) -> R {
    let RP::A(gx, gy) = rc.g.clone() else { return Ok(()) };
    let base = Spelling::of(rc);
    let e0 = lib!(ctx, C::spelled(&base), "creating {}", rc.desc());
    curve_report::<C>(ctx, rc, &e0, "decimal parameters")?;
    let p = &rc.f.p;
    let rng = &mut ctx.rng;
    let sp = Spelling {
        name: intern(["", "custom", "P256", "other", "curve25519"][rng.below(5)]),
        a: spell(rng, &rc.a, p),
        b: spell(rng, &rc.b, p),
        s: spell(rng, &rc.s, p),
        gx: spell(rng, &gx, p),
        gy: spell(rng, &gy, p),
        ..base.clone()
    };
    let shown = format!("a={} b/d={} s={} gx={} gy={}", sp.a, sp.b, sp.s, sp.gx, sp.gy);
    ctx.sample(|| format!("{} spelled {shown}", rc.desc()));
    let e1 = lib!(ctx, C::spelled(&sp), "creating {} from {shown}", rc.desc());
    curve_report::<C>(ctx, rc, &e1, &shown)?;
    let same = lib!(ctx, e0 == e1 && e1 == e0 && e0.get_field() == e1.get_field(), "comparison");
    ensure!(ctx, same, "{} spelled {shown} is a different curve", rc.desc());
    ctx.hit("spellings");
    // points of the one are points of the other
    let c1 = Crv::<C> { rc: rc.clone(), e: e1.clone(), f: lib!(ctx, e1.get_field(), "get_field") };
    for _ in 0..3 {
        let q = rand_point(rc, &mut ctx.rng);
        if rc.is_id(&q) {
            continue;
        }
        let RP::A(x, y) = &q else { continue };
        let f0 = lib!(ctx, e0.get_field(), "get_field");
        let q0 = lib!(ctx, e0.new_point(f0.elt(bi(x)), f0.elt(bi(y))), "{q} of {}", rc.desc());
        let q1 = c1.pt(ctx, &q)?;
        let same = lib!(ctx, q0 == q1 && q1 == q0 && e0.is_on_curve(&q1) && e1.is_on_curve(&q0), "comparison");
        ensure!(ctx, same, "{q} differs between two spellings of {}", rc.desc());
        let b = lib!(ctx, q1.encode(false), "encoding");
        let roots = sqrt_ok((p % 16u32).to_u32_digits().first().copied().unwrap_or(0));
        if roots || C::KIND != Kind::E {
            let back = lib!(ctx, e0.decode(&b), "decoding {q}");
            ensure!(ctx, back.is_ok_and(|v| v == q1), "{q} of {} does not survive encoding on one spelling and decoding on another", rc.desc());
        }
        encode_check(ctx, &c1, &q1, &q, "spelled parameters", roots)?;
        if group {
            let g = lib!(ctx, e0.get_generator(), "get_generator");
            let s = lib!(ctx, C::add(ctx.case as usize, &g, &q1), "G + {q} across spellings");
            c1.expect(ctx, &s, &rc.add(&rc.g, &q), || format!("G + {q} across spellings"))?;
            let k = gen::int(&mut ctx.rng, &rc.r);
            let ks = lib!(ctx, e1.new_scalar(k.clone()), "new_scalar");
            let t = lib!(ctx, C::mul(ctx.case as usize, &g, &ks), "{k}*G across spellings");
            c1.expect(ctx, &t, &rc.mul_raw(&rc.g, &F::new(&rc.r).lift(&k)), || format!("{k}*G across spellings"))?;
            let s = lib!(ctx, t.to_string(), "printing");
            let w = rc.mul_raw(&rc.g, &F::new(&rc.r).lift(&k));
            let got = printed_point(rc, &s);
            ensure!(ctx, got.as_ref().is_some_and(|q| *q == w || (rc.is_id(q) && rc.is_id(&w))), "{k}*G of {} prints {s:?} instead of coordinates of {w}", rc.desc());
        }
    }
    // a base point which is not on the curve is never handed out
    let (bx, by) = match ctx.rng.below(4) {
        0 => (gx.clone(), rc.f.add(&gy, &N::one())),
        1 => (rc.f.add(&gx, &N::one()), gy.clone()),
        2 => (gy.clone(), gx.clone()),
        _ => (gen::elt(&mut ctx.rng, p), gen::elt(&mut ctx.rng, p)),
    };
    if !rc.on_xy(&bx, &by) {
        let bad = Spelling { gx: spell(&mut ctx.rng, &bx, p), gy: spell(&mut ctx.rng, &by, p), ..base };
        ctx.refused(|| format!("the base point ({bx}, {by}) of {}, which is not on the curve", rc.desc()), || C::spelled(&bad).get_generator())?;
        ctx.hit("bad base points");
        // and does not disturb the rest
        if let Ok(e) = guarded(|| C::spelled(&bad)) {
            let _ = guarded(|| e.get_generator());
            let r = lib!(ctx, e.get_order(), "get_order");
            let o = lib!(ctx, e.identity().is_zero(), "identity");
            ensure!(ctx, r == rc.r && o, "{} with another base point reports order {r}", rc.desc());
        }
    }
    ctx.seen(&[rc.desc().as_bytes(), shown.as_bytes()]);
    if sp.a.starts_with('-') || sp.b.starts_with('-') {
        ctx.hit("negative coefficients");
    }
    if sp.gx.contains('x') || sp.gx.contains('o') || sp.gx.contains('b') {
        ctx.hit("coordinates in other radices");
    }
    Ok(())
}

fn c30_for<C: Cut>(pl: &mut Plan, th: bool) {
    let kind = C::KIND;
    let named: Vec<RC> = named_rcs(kind);
    pl.job(format!("{kind:?} tiny curves"), many(th, 60, 1200), move |ctx| {
        let ps = [5u64, 7, 11, 13, 17, 19, 23, 29, 31, 37];
        let p = ps[ctx.case as usize % ps.len()];
        let seed = ctx.rng.u64();
        for rc in tiny_sample(kind, p, 3, seed) {
            params_case::<C>(ctx, &rc, true)?;
        }
        Ok(())
    });
    pl.job(format!("{kind:?} large curves"), many(th, 120, 3000), move |ctx| {
        let bits = 6 + ctx.rng.below(380);
        let p = gen::rand_prime(&mut ctx.rng, bits, |_| true);
        let mut rc = random_curve(kind, &p, &mut ctx.rng);
        // orders and cofactors are whatever the user says
        let hb = 1 + ctx.rng.below(140);
        rc.h = ctx.rng.bits(hb) + 1u32;
        let rb = 2 + ctx.rng.below(500);
        rc.r = gen::rand_prime(&mut ctx.rng, rb.max(3), |_| true);
        if ctx.rng.one_in(4) {
            rc.h = N::one();
        }
        ctx.hit("large cofactors");
        params_case::<C>(ctx, &rc, bits < 200)
    });
    pl.job(format!("{kind:?} named parameters respelled"), named.len() as u64 * many(th, 2, 40), move |ctx| {
        let mut rc = named[ctx.case as usize % named.len()].clone();
        let e = lib!(ctx, C::named(rc.name).unwrap().0, "{}", rc.name);
        curve_report::<C>(ctx, &rc, &e, rc.name)?;
        let name = rc.name;
        rc.name = "";
        params_case::<C>(ctx, &rc, false)?;
        let same = lib!(ctx, C::custom(&rc) == e, "comparison");
        ensure!(ctx, same, "{name} differs from the curve with its parameters");
        Ok(())
    });
}

pub fn c30(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C30",
        "a case is one curve (tiny, random or with the parameters of a named one) created from two spellings of its parameters and asked for everything it reports, its points exchanged between the two instances, and one base point off the curve; distinct = distinct (curve, spelling)",
    );
    pl.must_hit = vec!["curve reports", "spellings", "bad base points", "negative coefficients", "coordinates in other radices", "large cofactors"];
    c30_for::<W>(&mut pl, th);
    c30_for::<M>(&mut pl, th);
    c30_for::<E>(&mut pl, th);
    pl
}
