//! C31: the promises that span components. Protocols built from several parts of
//! the library (scalars, points, encodings, maps, isogenies), run by parties which
//! share nothing but bytes, come out as the algebra says, and published test
//! vectors are met.
use super::curves::{named_torsion, scalar_is};
use super::maps::{self, iso_image, ISO};
use super::{many, sz};
use crate::cut::*;
use crate::gen::{self, Rng};
use crate::mon::{Ctx, Plan, R};
use crate::named::hex;
use crate::refm::{Kind, F, N, RC, RP};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::{edwards, montgomery, weierstrass};

/// A party: its own instance of the curve, nothing shared.
fn party<C: Cut>(ctx: &Ctx, rc: &RC) -> R<Crv<C>> {
    Crv::<C>::new(ctx, rc)
}

fn send<C: Cut>(ctx: &mut Ctx, from: &Crv<C>, p: &C::P, to: &Crv<C>, compress: bool) -> R<C::P> {
    let b = lib!(ctx, p.encode(compress), "encoding on {}", from.rc.desc());
    ctx.hit("points exchanged");
    match lib!(ctx, to.e.decode(&b), "decoding {b:?} on {}", to.rc.desc()) {
        Ok(q) => Ok(q),
        Err(e) => {
            fail(format!("{}: the peer refuses the encoding {b:?} of {}: {e}", to.rc.desc(), from.show(p)))?;
            unreachable!()
        }
    }
}

/// A secret scalar: its value and the library's.
fn secret<C: Cut>(ctx: &mut Ctx, c: &Crv<C>) -> R<(N, C::S)> {
    let k = match ctx.rng.below(6) {
        0 => BigInt::from(ctx.rng.below(4)),
        1 => bi(&c.rc.r) - 1 - BigInt::from(ctx.rng.below(3)),
        2 => scalar_int(&mut ctx.rng, &c.rc.r),
        _ => bi(&gen::elt(&mut ctx.rng, &c.rc.r)),
    };
    let n = F::new(&c.rc.r).lift(&k);
    Ok((n, c.scalar(ctx, &k)?))
}

fn mulp<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, k: &C::S) -> R<C::P> {
    let form = ctx.rng.below(MUL_FORMS);
    ctx.call(|| format!("scalar multiplication on {}", c.rc.desc()), || C::mul(form, p, k))
}

fn addp<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, q: &C::P) -> R<C::P> {
    let form = ctx.rng.below(ADD_FORMS);
    ctx.call(|| format!("addition on {}", c.rc.desc()), || C::add(form, p, q))
}

fn same<C: Cut>(ctx: &mut Ctx, c: &Crv<C>, p: &C::P, q: &C::P, what: &str) -> R {
    let eq = lib!(ctx, *p == *q && *q == *p && p.encode(false) == q.encode(false) && p.encode(true) == q.encode(true), "comparison");
    ctx.check(eq, || format!("{} on {}: {} against {}", what, c.rc.desc(), c.show(p), c.show(q)))
}

/// Two or three parties on independent instances; `base` generates the group.
fn protocols<C: Cut>(ctx: &mut Ctx, rc: &RC, base: &RP) -> R {
    let (al, bo) = (party::<C>(ctx, rc)?, party::<C>(ctx, rc)?);
    let fr = F::new(&rc.r);
    let comp = ctx.rng.bool();
    let (ga, gb) = (al.pt(ctx, base)?, bo.pt(ctx, base)?);
    let ((a, sa), (b, sb)) = (secret(ctx, &al)?, secret(ctx, &bo)?);
    ctx.seen(&[rc.desc().as_bytes(), base.to_string().as_bytes(), &a.to_bytes_le(), &b.to_bytes_le()]);
    ctx.sample(|| format!("{} base {base} a={a} b={b}", rc.desc()));
    // Diffie-Hellman
    let (pa, pb) = (mulp(ctx, &al, &ga, &sa)?, mulp(ctx, &bo, &gb, &sb)?);
    let (qa, qb) = (send(ctx, &al, &pa, &bo, comp)?, send(ctx, &bo, &pb, &al, !comp)?);
    let (ka, kb) = (mulp(ctx, &al, &qb, &sa)?, mulp(ctx, &bo, &qa, &sb)?);
    same(ctx, &al, &ka, &kb, "Diffie-Hellman parties disagree")?;
    let ab = fr.mul(&a, &b);
    al.expect(ctx, &ka, &rc.mul_raw(base, &ab), || format!("the shared secret of {a} and {b} over {base}"))?;
    ctx.hit("key agreements");
    // Schnorr: s = k + e*a
    let ((k, sk), (e, se)) = (secret(ctx, &al)?, secret(ctx, &bo)?);
    let rk = mulp(ctx, &al, &ga, &sk)?;
    let form = ctx.rng.below(4);
    let s = lib!(ctx, C::sadd(form, &sk, &C::smul(form, &se, &sa)), "k + e*a");
    scalar_is::<C>(ctx, &s, &fr.add(&k, &fr.mul(&e, &a)), &rc.r, || format!("{k} + {e}*{a}"))?;
    let lhs = mulp(ctx, &bo, &gb, &s)?;
    let rr = send(ctx, &al, &rk, &bo, comp)?;
    let ea = mulp(ctx, &bo, &qa, &se)?;
    let rhs = addp(ctx, &bo, &rr, &ea)?;
    same(ctx, &bo, &lhs, &rhs, "a Schnorr signature does not verify")?;
    ctx.hit("signatures");
    // blinding: (1/t)(t P) = P, in both orders of division
    let (t, st) = secret(ctx, &al)?;
    if !t.is_zero() {
        let inv = lib!(ctx, C::sinv(1, &st), "1/{t}");
        let p = mulp(ctx, &al, &pa, &st)?;
        let p = mulp(ctx, &al, &p, &inv)?;
        same(ctx, &al, &p, &pa, "unblinding does not undo blinding")?;
        let q = lib!(ctx, C::sdiv(form, &sa, &st), "{a}/{t}");
        let p = mulp(ctx, &al, &ga, &q)?;
        let p = mulp(ctx, &al, &p, &st)?;
        same(ctx, &al, &p, &pa, "(a/t)*t*G differs from a*G")?;
        ctx.hit("blindings");
    }
    // distributivity, and splitting a secret into shares
    let sum = lib!(ctx, C::sadd(form, &sa, &sb), "a+b");
    let l = mulp(ctx, &al, &ga, &sum)?;
    let m = addp(ctx, &al, &pa, &qb)?;
    same(ctx, &al, &l, &m, "(a+b)*G differs from a*G + b*G")?;
    let dif = lib!(ctx, C::ssub(form, &sa, &sb), "a-b");
    let l = mulp(ctx, &al, &ga, &dif)?;
    let m = lib!(ctx, C::sub(form, &pa, &qb), "a*G - b*G");
    same(ctx, &al, &l, &m, "(a-b)*G differs from a*G - b*G")?;
    let neg = lib!(ctx, C::sneg(form, &sa), "-a");
    let l = mulp(ctx, &al, &ga, &neg)?;
    let m = lib!(ctx, C::neg(form, &pa), "-(a*G)");
    same(ctx, &al, &l, &m, "(-a)*G differs from -(a*G)")?;
    ctx.hit("distributions");
    Ok(())
}

/// Shamir secret sharing in the exponent: any t+1 shares give the public key.
fn shamir<C: Cut>(ctx: &mut Ctx, rc: &RC) -> R {
    let c = party::<C>(ctx, rc)?;
    let fr = F::new(&rc.r);
    let t = 1 + ctx.rng.below(2);
    if rc.r <= N::from(t as u32 + 3) {
        return Ok(());
    }
    let co: Vec<N> = (0..=t).map(|_| gen::elt(&mut ctx.rng, &rc.r)).collect();
    let sco = co.iter().map(|k| c.scalar(ctx, &bi(k))).collect::<R<Vec<_>>>()?;
    let g = c.pt(ctx, &rc.g)?;
    let xs: Vec<u32> = (0..=t as u32).map(|i| i + 1 + ctx.rng.below(2) as u32).scan(0u32, |l, x| { *l = (*l + 1).max(x); Some(*l) }).collect();
    let mut acc = lib!(ctx, c.e.identity(), "identity");
    for (i, xi) in xs.iter().enumerate() {
        let x = c.scalar(ctx, &BigInt::from(*xi))?;
        // Horner in the exponent
        let mut y = sco[t].clone();
        for k in sco[..t].iter().rev() {
            y = lib!(ctx, C::sadd(i, &C::smul(i, &y, &x), k), "share");
        }
        let share = mulp(ctx, &c, &g, &y)?;
        let mut la = c.scalar(ctx, &BigInt::one())?;
        for (j, xj) in xs.iter().enumerate() {
            if i != j {
                let sj = c.scalar(ctx, &BigInt::from(*xj))?;
                la = lib!(ctx, C::smul(j, &la, &C::sdiv(j, &sj, &C::ssub(j, &sj, &x))), "Lagrange coefficient");
            }
        }
        let part = mulp(ctx, &c, &share, &la)?;
        acc = addp(ctx, &c, &acc, &part)?;
    }
    let pk = mulp(ctx, &c, &g, &sco[0])?;
    same(ctx, &c, &acc, &pk, "recombined shares differ from the public key")?;
    c.expect(ctx, &pk, &rc.mul_raw(&rc.g, &fr.lift(&bi(&co[0]))), || format!("{} * G", co[0]))?;
    ctx.hit("secret sharings");
    Ok(())
}

/// The signer's side of many signatures: responses s = k + e*a and s = (k - e*a)/t
/// under any prime order.
fn responses<C: Cut>(ctx: &mut Ctx, r: &N, vals: &[[N; 4]]) -> R {
    let fr = F::new(r);
    for [k, e, a, t] in vals {
        let mut l = vec![];
        for n in [k, e, a, t] {
            l.push(lib!(ctx, C::snew(bi(n), r), "Scalar::new({n})"));
        }
        let form = ctx.rng.below(4);
        let s = lib!(ctx, C::sadd(form, &l[0], &C::smul(form, &l[1], &l[2])), "{k} + {e}*{a} mod {r}");
        scalar_is::<C>(ctx, &s, &fr.add(k, &fr.mul(e, a)), r, || format!("{k} + {e}*{a}"))?;
        let d = lib!(ctx, C::ssub(form, &l[0], &C::smul(form, &l[2], &l[1])), "{k} - {a}*{e} mod {r}");
        let w = fr.sub(k, &fr.mul(e, a));
        scalar_is::<C>(ctx, &d, &w, r, || format!("{k} - {e}*{a}"))?;
        if !t.is_zero() {
            let q = lib!(ctx, C::sdiv(form, &d, &l[3]), "({k} - {e}*{a})/{t} mod {r}");
            scalar_is::<C>(ctx, &q, &fr.div(&w, t), r, || format!("({k} - {e}*{a})/{t}"))?;
        }
    }
    ctx.hit("signature responses");
    Ok(())
}

/// k*push(P) = push(k*P) and friends, for the four point maps.
fn equivariance(ctx: &mut Ctx, which: usize) -> R {
    macro_rules! run {
        ($A:ty, $B:ty, $from:expr, $to:expr, $f:expr, $w:expr, $what:expr) => {{
            let (ra, rb) = (crate::named::rc($from), crate::named::rc($to));
            let (a, b) = (party::<$A>(ctx, &ra)?, party::<$B>(ctx, &rb)?);
            let tor = named_torsion($from);
            let p0 = some_point(&ra, &mut ctx.rng, &tor);
            let p = a.pt(ctx, &p0)?;
            let (k, sk) = secret(ctx, &a)?;
            let skb = b.scalar(ctx, &bi(&k))?;
            let kp = mulp(ctx, &a, &p, &sk)?;
            let l = lib!(ctx, $f(kp.clone()), "{}({k} * {p0})", $what);
            let fp = lib!(ctx, $f(p.clone()), "{}({p0})", $what);
            let r = mulp(ctx, &b, &fp, &skb)?;
            same(ctx, &b, &l, &r, &format!("{}({k} * {p0}) differs from {k} * {}({p0})", $what, $what))?;
            b.expect(ctx, &l, &$w(&ra.mul_raw(&p0, &k)), || format!("{}({k} * {p0})", $what))?;
            ctx.hit("equivariance");
            ctx.seen(&[$what.as_bytes(), p0.to_string().as_bytes(), &k.to_bytes_le()]);
        }};
    }
    match which {
        0 | 1 => {
            let rat = &maps::rats()[which];
            let f = crate::named::rc(rat.ed).f;
            let m = lib!(ctx, rat.lib(), "creating the {} map", rat.name);
            run!(E, M, rat.ed, rat.mt, |p| m.push(p), |q: &RP| rat.push(&f, q), format!("push{}", rat.name));
            run!(M, E, rat.mt, rat.ed, |p| m.pull(p), |q: &RP| rat.pull(&f, q), format!("pull{}", rat.name));
        }
        _ => {
            let n = ISO[which - 2];
            let f = crate::named::rc(n).f;
            let co = crate::named::iso_coeffs(n);
            let m = lib!(ctx, maps::lib_iso(n), "creating the isogeny from {n}");
            run!(W, W, n, maps::iso_target(n), |p| m.push(p), |q: &RP| iso_image(&co, &f, q), format!("the isogeny from {n}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------- hashing to a curve

type MapBox<C> = Box<dyn MapToCurve<E = <C as Cut>::E>>;

struct Suite<C: Cut> {
    curve: &'static str,
    how: &'static str,
    make: fn(&Crv<C>) -> MapBox<C>,
    refm: fn(&RC, &N) -> RP,
}

fn sm(rc: &RC, n: i64) -> N {
    rc.f.small(n)
}

macro_rules! sswu {
    ($n:literal, $z:expr) => {
        Suite::<W> {
            curve: $n,
            how: "SSWU",
            make: |c| Box::new(weierstrass::SSWU::new(c.e.clone(), c.fe(&sm(&c.rc, $z)))),
            refm: |rc, u| rc.sswu(&sm(rc, $z), u),
        }
    };
}
macro_rules! ab0 {
    ($n:literal, $iso:literal, $z:expr) => {
        Suite::<W> {
            curve: $n,
            how: "SSWU and isogeny",
            make: |c| Box::new(weierstrass::SSWUAB0::new(c.e.clone(), c.fe(&sm(&c.rc, $z)), maps::lib_iso($iso))),
            refm: |rc, u| iso_image(&crate::named::iso_coeffs($iso), &rc.f, &crate::named::rc($iso).sswu(&sm(rc, $z), u)),
        }
    };
}
/// first admissible Z of the Shallue-van de Woestijne map
fn svdw_z(rc: &RC) -> N {
    maps::first_z(&rc.f, |z| maps::svdw_ok(rc, z)).expect("Z")
}
macro_rules! svdw {
    ($n:literal) => {
        Suite::<W> {
            curve: $n,
            how: "SvdW",
            make: |c| Box::new(weierstrass::SVDW::new(c.e.clone(), c.fe(&svdw_z(&c.rc)))),
            refm: |rc, u| rc.svdw(&svdw_z(rc), u),
        }
    };
}

fn w_suites() -> Vec<Suite<W>> {
    vec![
        sswu!("P256", -10),
        sswu!("P384", -12),
        sswu!("P521", -4),
        ab0!("secp256k1", "secp256k1_3iso", -11),
        ab0!("bls12381_g1", "bls12381_g1_11iso", 11),
        sswu!("secp256k1_3iso", -11),
        sswu!("bls12381_g1_11iso", 11),
        svdw!("P256"),
        svdw!("P384"),
        svdw!("P521"),
        svdw!("secp256k1"),
        svdw!("bls12381_g1"),
    ]
}

fn m_suites() -> Vec<Suite<M>> {
    vec![
        Suite {
            curve: "curve25519",
            how: "Elligator 2",
            make: |c| Box::new(montgomery::Ell2::new(c.e.clone(), c.fe(&sm(&c.rc, 2)))),
            refm: |rc, u| rc.ell2(&sm(rc, 2), u),
        },
        Suite {
            curve: "curve448",
            how: "Elligator 2",
            make: |c| Box::new(montgomery::Ell2::new(c.e.clone(), c.fe(&sm(&c.rc, -1)))),
            refm: |rc, u| rc.ell2(&sm(rc, -1), u),
        },
    ]
}

fn e_suites() -> Vec<Suite<E>> {
    vec![
        Suite {
            curve: "edwards25519",
            how: "Elligator 2",
            make: |c| Box::new(edwards::Ell2::new(c.e.clone(), c.fe(&sm(&c.rc, 2)), Some(maps::rats()[0].lib()))),
            refm: |rc, u| maps::rats()[0].pull(&rc.f, &crate::named::rc("curve25519").ell2(&sm(rc, 2), u)),
        },
        Suite {
            curve: "edwards448",
            how: "Elligator 2",
            make: |c| Box::new(edwards::Ell2::new(c.e.clone(), c.fe(&sm(&c.rc, -1)), Some(maps::rats()[1].lib()))),
            refm: |rc, u| maps::rats()[1].pull(&rc.f, &crate::named::rc("curve448").ell2(&sm(rc, -1), u)),
        },
    ]
}

fn hash_point<C: Cut>(ctx: &mut Ctx, s: &Suite<C>, c: &Crv<C>, u: &[N; 2]) -> R<(C::P, C::P, C::P, C::P)> {
    let m = lib!(ctx, (s.make)(c), "creating the {} map of {}", s.how, s.curve);
    let q0 = lib!(ctx, m.map(&c.fe(&u[0])), "{}: map({})", s.curve, u[0]);
    let q1 = lib!(ctx, m.map(&c.fe(&u[1])), "{}: map({})", s.curve, u[1]);
    let r = addp(ctx, c, &q0, &q1)?;
    let h = lib!(ctx, c.e.new_scalar(c.e.get_cofactor()), "the cofactor of {} as a scalar", s.curve);
    let p = mulp(ctx, c, &r, &h)?;
    Ok((q0, q1, r, p))
}

/// map, map, add, clear the cofactor, send; twice over, by parties with their own
/// instances; the point is in the prime-order subgroup and serves as a base.
fn hashing<C: Cut>(ctx: &mut Ctx, s: &Suite<C>) -> R {
    let rc = crate::named::rc(s.curve);
    let (al, bo) = (party::<C>(ctx, &rc)?, party::<C>(ctx, &rc)?);
    let pick = |rng: &mut Rng| match rng.below(8) {
        0 => N::zero(),
        _ => gen::elt(rng, &rc.f.p),
    };
    let u0 = pick(&mut ctx.rng);
    let u1 = match ctx.rng.below(6) {
        0 => u0.clone(),
        1 => rc.f.neg(&u0),
        _ => pick(&mut ctx.rng),
    };
    let u = [u0, u1];
    let (q0, q1, r, p) = hash_point(ctx, s, &al, &u)?;
    let (w0, w1) = ((s.refm)(&rc, &u[0]), (s.refm)(&rc, &u[1]));
    al.expect(ctx, &q0, &w0, || format!("{} map({})", s.how, u[0]))?;
    al.expect(ctx, &q1, &w1, || format!("{} map({})", s.how, u[1]))?;
    let wr = rc.add(&w0, &w1);
    al.expect(ctx, &r, &wr, || format!("{} map({}) + map({})", s.how, u[0], u[1]))?;
    let wp = rc.mul_raw(&wr, &rc.h);
    al.expect(ctx, &p, &wp, || format!("the {} hash of {} and {}", s.how, u[0], u[1]))?;
    // in the subgroup
    let k = al.scalar(ctx, &(bi(&rc.r) - 1))?;
    let n = mulp(ctx, &al, &p, &k)?;
    let z = addp(ctx, &al, &n, &p)?;
    let id = lib!(ctx, z.is_zero() && z == al.e.identity(), "identity test");
    ctx.check(id, || format!("{}: the hash of {} and {} is not in the prime-order subgroup", s.curve, u[0], u[1]))?;
    // the other party computes and receives the same point
    let (_, _, _, p2) = hash_point(ctx, s, &bo, &u)?;
    let comp = ctx.rng.bool();
    let p3 = send(ctx, &al, &p, &bo, comp)?;
    same(ctx, &bo, &p2, &p3, "two parties hash to different points")?;
    // clearing and adding commute
    let h = al.scalar(ctx, &bi(&rc.h))?;
    let (c0, c1) = (mulp(ctx, &al, &q0, &h)?, mulp(ctx, &al, &q1, &h)?);
    let c = addp(ctx, &al, &c0, &c1)?;
    same(ctx, &al, &c, &p, "clearing the cofactor before and after adding differ")?;
    ctx.hit("hashes");
    if !rc.is_id(&wp) && ctx.rng.one_in(3) {
        protocols::<C>(ctx, &rc, &wp)?;
        ctx.hit("hashed bases");
    }
    ctx.seen(&[s.curve.as_bytes(), s.how.as_bytes(), &u[0].to_bytes_le(), &u[1].to_bytes_le()]);
    Ok(())
}

// ------------------------------------------------------------ known answers

/// (curve, u0, u1, x and y of the hash): RFC 9380, appendix J, empty message.
const ROS: [(&str, &str, &str, &str, &str); 4] = [
    ("P256", "ad5342c66a6dd0ff080df1da0ea1c04b96e0330dd89406465eeba11582515009", "8c0f1d43204bd6f6ea70ae8013070a1518b43873bcd850aafa0a9e220e2eea5a", "2c15230b26dbc6fc9a37051158c95b79656e17a1a920b11394ca91c44247d3e4", "8a7a74985cc5c776cdfe4b1f19884970453912e9d31528c060be9ab5c43e8415"),
    ("secp256k1", "6b0f9910dd2ba71c78f2ee9f04d73b5f4c5f7fc773a701abea1e573cab002fb3", "1ae6c212e08fe1a5937f6202f929a2cc8ef4ee5b9782db68b0d5799fd8f09e16", "c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346", "64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067"),
    ("bls12381_g1", "0ba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f", "019b9bd7979f12657976de2884c7cce192b82c177c80e0ec604436a7f538d231552f0d96d9f7babe5fa3b19b3ff25ac9", "052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1", "08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265"),
    ("curve25519", "005fe8a7b8fef0a16c105e6cadf5a6740b3365e18692a9c05bfbb4d97f645a6a", "1347edbec6a2b5d8c02e058819819bee177077c9d10a4ce165aab0fd0252261a", "2de3780abb67e861289f5749d16d3e217ffa722192d16bbd9d1bfb9d112b98c0", "3b5dc2a498941a1033d176567d457845637554a2fe7a3507d21abd1c1bd6e878"),
];

/// (curve, u, x of map(u)): RFC 9380, appendix J.
const MAPS: [(&str, &str, &str); 7] = [
    ("P384", "25c8d7dc1acd4ee617766693f7f8829396065d1b447eedb155871feffd9c6653279ac7e5c46edb7010a0e4ff64c9f3b4", "e4717e29eef38d862bee4902a7d21b44efb58c464e3e1f0d03894d94de310f8ffc6de86786dd3e15a1541b18d4eb2846"),
    ("P521", "01e5f09974e5724f25286763f00ce76238c7a6e03dc396600350ee2c4135fb17dc555be99a4a4bae0fd303d4f66d984ed7b6a3ba386093752a855d26d559d69e7e9e", "00b70ae99b6339fffac19cb9bfde2098b84f75e50ac1e80d6acb954e4534af5f0e9c4a5b8a9c10317b8e6421574bae2b133b4f2b8c6ce4b3063da1d91d34fa2b3a3c"),
    ("P256", "8c0f1d43204bd6f6ea70ae8013070a1518b43873bcd850aafa0a9e220e2eea5a", "51cce63c50d972a6e51c61334f0f4875c9ac1cd2d3238412f84e31da7d980ef5"),
    ("secp256k1", "6b0f9910dd2ba71c78f2ee9f04d73b5f4c5f7fc773a701abea1e573cab002fb3", "74519ef88b32b425a095e4ebcc84d81b64e9e2c2675340a720bb1a1857b99f1e"),
    ("curve25519", "005fe8a7b8fef0a16c105e6cadf5a6740b3365e18692a9c05bfbb4d97f645a6a", "36b4df0c864c64707cbf6cf36e9ee2c09a6cb93b28313c169be29561bb904f98"),
    ("curve25519", "1347edbec6a2b5d8c02e058819819bee177077c9d10a4ce165aab0fd0252261a", "3fa114783a505c0b2b2fbeef0102853c0b494e7757f2a089d0daae7ed9a0db2b"),
    ("edwards25519", "03fef4813c8cb5f98c6eef88fae174e6e7d5380de2b007799ac7ee712d203f3a", "6549118f65bb617b9e8b438decedc73c496eaed496806d3b2eb9ee60b88e09a7"),
];

/// (curve, scalar in hexadecimal, uncompressed or RFC 8032 encoding of the multiple
/// of the base point): doubling vectors and RFC 8032 test keys (clamped scalars).
const MULS: [(&str, &str, &str); 7] = [
    ("P256", "2", "047cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc4766997807775510db8ed040293d9ac69f7430dbba7dade63ce982299e04b79d227873d1"),
    ("secp256k1", "2", "04c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee51ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a"),
    ("edwards25519", "4fe94d9006f020a5a3c080d96827fffd3c010ac0f12e7a42cb33284f86837c30", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"),
    ("edwards25519", "512e502eb0249a255e1c827f3b6b6c7f0a79f4ca8575a91528d58258d79ebd68", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"),
    ("edwards25519", "5ca91e9981a125131bf5c2c54e7f4dba113dc2155ba523908402d95e758b9a90", "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025"),
    ("edwards448", "b7bbc01fa70105a74feece1566f5f98374d1ee1ed836c005b99c51381d5e0275eef3a45b54f011b488a572f46766edc78e80a0cea03039e8", "5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180"),
    ("edwards448", "0", "010000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"),
];

/// (curve, little-endian secret before clamping, little-endian peer u, result u):
/// RFC 7748, section 6; "" stands for the base point.
const X: [(&str, &str, &str, &str); 5] = [
    ("curve25519", "5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb", "", "de9edb7d7b7dc1b4d35b61c2ece435373f8343c85b78674dadfc7e146f882b4f"),
    ("curve25519", "5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb", "8520f0098930a754748b7ddcb43ef75a0dbf3a0d26381af4eba4a98eaa9b4e6a", "4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742"),
    ("curve448", "9a8f4925d1519f5775cf46b04b5800d4ee9ee8bae8bc5565d498c28dd9c9baf574a9419744897391006382a6f127ab1d9ac2d8c0a598726b", "", "9b08f7cc31b7e3e67d22d5aea121074a273bd2b83de09c63faa73d2c22c5d9bbc836647241d953d40c5b12da88120d53177f80e532c41fa0"),
    ("curve448", "1c306a7ac2a0e2e0990b294470cba339e6453772b075811d8fad0d1d6927c120bb5ee8972b0d3e21374c9c921b09d1b0366f10b65173992d", "", "3eb7a829b0cd20f5bcfc0b599b6feccf6da4627107bdb0d4f345b43027d8b972fc3e34fb4232a13ca706dcb57aec3dae07bdc1c67bf33609"),
    ("curve448", "9a8f4925d1519f5775cf46b04b5800d4ee9ee8bae8bc5565d498c28dd9c9baf574a9419744897391006382a6f127ab1d9ac2d8c0a598726b", "3eb7a829b0cd20f5bcfc0b599b6feccf6da4627107bdb0d4f345b43027d8b972fc3e34fb4232a13ca706dcb57aec3dae07bdc1c67bf33609", "07fff4181ac6cc95ec1c16a94a0f74d12da232ce40a77552281d282bb60c0b56fd2464c335543936521c24403085d59a449a5037514a879d"),
];

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn le(s: &str) -> N {
    BigUint::from_bytes_le(&unhex(s))
}

fn kat_suite<C: Cut>(ctx: &mut Ctx, s: &Suite<C>) -> R {
    let rc = crate::named::rc(s.curve);
    let c = party::<C>(ctx, &rc)?;
    for (n, u0, u1, x, y) in ROS {
        if n == s.curve && s.how != "SvdW" {
            let u = [hex(u0), hex(u1)];
            let w = RP::A(hex(x), hex(y));
            // the vector itself, against the reference
            assert_eq!(rc.mul_raw(&rc.add(&(s.refm)(&rc, &u[0]), &(s.refm)(&rc, &u[1])), &rc.h), w, "vector {n}");
            let (_, _, _, p) = hash_point(ctx, s, &c, &u)?;
            c.expect(ctx, &p, &w, || format!("the published hash with u = {u0}, {u1}"))?;
            let b = lib!(ctx, p.encode(false), "encoding");
            ensure!(ctx, b == rc.encode(&w, false), "{n}: the published hash encodes to {b:?}");
            ctx.hit("published hashes");
        }
    }
    for (n, u, x) in MAPS {
        if n == s.curve && s.how != "SvdW" {
            let w = (s.refm)(&rc, &hex(u));
            assert!(matches!(&w, RP::A(wx, _) if *wx == hex(x)), "vector {n} {u}: {w}");
            let m = lib!(ctx, (s.make)(&c), "creating the map of {n}");
            let q = lib!(ctx, m.map(&c.fe(&hex(u))), "map({u})");
            c.expect(ctx, &q, &w, || format!("map({u})"))?;
            ctx.hit("published maps");
        }
    }
    Ok(())
}

fn kat_mul<C: Cut>(ctx: &mut Ctx, n: &str, k: &N, want: &[u8]) -> R {
    let rc = crate::named::rc(n);
    let c = party::<C>(ctx, &rc)?;
    let w = rc.mul_raw(&rc.g, k);
    assert_eq!(rc.encode(&w, false), want, "vector {n} {k}");
    let s = c.scalar(ctx, &bi(k))?;
    let g = lib!(ctx, c.e.get_generator(), "get_generator");
    let p = mulp(ctx, &c, &g, &s)?;
    let b = lib!(ctx, p.encode(false), "encoding");
    ensure!(ctx, b == want, "{n}: the published multiple {k} of the base point encodes to {b:?}");
    let q = lib!(ctx, c.e.decode(want), "decoding the published multiple");
    ensure!(ctx, q.is_ok_and(|q| q == p), "{n}: the published encoding of {k} times the base point is not decoded to it");
    ctx.hit("published multiples");
    Ok(())
}

fn kat_x(ctx: &mut Ctx, n: &str, k: &str, u: &str, want: &str) -> R {
    let rc = crate::named::rc(n);
    let c = party::<M>(ctx, &rc)?;
    let mut kb = unhex(k);
    let last = kb.len() - 1;
    if n == "curve25519" {
        kb[0] &= 0xf8;
        kb[last] = (kb[last] & 0x7f) | 0x40;
    } else {
        kb[0] &= 0xfc;
        kb[last] |= 0x80;
    }
    let k = BigUint::from_bytes_le(&kb);
    let s = c.scalar(ctx, &bi(&k))?;
    let bases = if u.is_empty() { vec![rc.g.clone()] } else { rc.with_coord(&le(u)) };
    assert!(!bases.is_empty());
    for b in bases {
        let w = rc.mul_raw(&b, &k);
        assert!(matches!(&w, RP::A(x, _) if *x == le(want)), "vector {n}");
        let p = c.pt(ctx, &b)?;
        let q = mulp(ctx, &c, &p, &s)?;
        c.expect(ctx, &q, &w, || format!("the published exchange with {u:?}"))?;
        let e = lib!(ctx, q.encode(true), "encoding");
        let mut wb = unhex(want);
        wb.reverse();
        ensure!(ctx, e.len() == 1 + wb.len() && e[1..] == wb[..], "{n}: the published exchange gives {e:?}");
        ctx.hit("published exchanges");
    }
    Ok(())
}

fn c31_for<C: Cut>(pl: &mut Plan, th: bool) {
    let kind = C::KIND;
    let named = named_rcs(kind);
    let n = named.len() as u64;
    pl.job(format!("{kind:?} protocols"), n * many(th, 4, 60), move |ctx| {
        let rc = &named[(ctx.case % n) as usize];
        protocols::<C>(ctx, rc, &rc.g)?;
        if ctx.case / n == 0 || ctx.rng.one_in(4) {
            shamir::<C>(ctx, rc)?;
        }
        Ok(())
    });
    pl.job(format!("{kind:?} protocols on tiny curves"), many(th, 60, 2000), move |ctx| {
        let ps = gen::small_primes(110);
        let mut p = *ctx.rng.pick(&ps);
        // decoding takes square roots
        while p < 7 || p % 8 == 1 {
            p = *ctx.rng.pick(&ps);
        }
        let seed = ctx.rng.u64();
        for rc in tiny_sample(kind, p, 2, seed) {
            for _ in 0..6 {
                let k = gen::nonzero_elt(&mut ctx.rng, &rc.r);
                let base = rc.mul_raw(&rc.g, &k);
                protocols::<C>(ctx, &rc, &base)?;
                shamir::<C>(ctx, &rc)?;
            }
            ctx.hit("tiny groups");
        }
        Ok(())
    });
}

fn c31_scalars<C: Cut>(pl: &mut Plan, th: bool) {
    let rs = gen::small_primes(sz(th, 130, 400));
    pl.job(format!("{:?} signature responses, every secret of tiny orders", C::KIND), rs.len() as u64, move |ctx| {
        let r = rs[ctx.case as usize];
        let mut v = vec![];
        for e in 0..r {
            for a in 0..r {
                v.push([gen::big(ctx.rng.below(r as usize) as u64), gen::big(e), gen::big(a), gen::big((e + a) % r)]);
            }
        }
        responses::<C>(ctx, &gen::big(r), &v)
    });
    let sp = gen::special_primes();
    pl.job(format!("{:?} signature responses, large orders", C::KIND), many(th, 300, 6000), move |ctx| {
        let r = match ctx.case % 3 {
            0 => sp[(ctx.case / 3) as usize % sp.len()].clone(),
            _ => {
                let b = 3 + ctx.rng.below(560);
                gen::rand_prime(&mut ctx.rng, b, |_| true)
            }
        };
        let mut e = || gen::elt(&mut ctx.rng, &r);
        let v: Vec<[N; 4]> = (0..12).map(|_| [e(), e(), e(), e()]).collect();
        ctx.seen(&[b"responses", &r.to_bytes_le(), &v[0][1].to_bytes_le()]);
        responses::<C>(ctx, &r, &v)
    });
}

pub fn c31(th: bool) -> Plan {
    let mut pl = Plan::new(
        "C31",
        "a case is one run of protocols (key agreement, signature, blinding, secret sharing) by parties with their own curve instances which exchange encodings, one hash to a curve, one multiple pushed through a point map, or one published vector; distinct = distinct (curve, base, secrets) or (suite, inputs)",
    );
    pl.must_hit = vec![
        "points exchanged",
        "key agreements",
        "signatures",
        "blindings",
        "distributions",
        "secret sharings",
        "equivariance",
        "hashes",
        "hashed bases",
        "published hashes",
        "published maps",
        "published multiples",
        "published exchanges",
        "tiny groups",
        "signature responses",
    ];
    pl.job("published vectors", 1, |ctx| {
        for s in &w_suites() {
            kat_suite(ctx, s)?;
        }
        for s in &m_suites() {
            kat_suite(ctx, s)?;
        }
        for s in &e_suites() {
            kat_suite(ctx, s)?;
        }
        for (n, k, w) in MULS {
            match crate::named::rc(n).kind {
                Kind::W => kat_mul::<W>(ctx, n, &hex(k), &unhex(w))?,
                Kind::M => kat_mul::<M>(ctx, n, &hex(k), &unhex(w))?,
                Kind::E => kat_mul::<E>(ctx, n, &hex(k), &unhex(w))?,
            }
        }
        for (n, k, u, w) in X {
            kat_x(ctx, n, k, u, w)?;
        }
        Ok(())
    });
    c31_for::<W>(&mut pl, th);
    c31_for::<M>(&mut pl, th);
    c31_for::<E>(&mut pl, th);
    c31_scalars::<W>(&mut pl, th);
    c31_scalars::<M>(&mut pl, th);
    c31_scalars::<E>(&mut pl, th);
    pl.job("multiples through point maps", many(th, 40, 1000), |ctx| equivariance(ctx, ctx.case as usize % 4));
    pl.job("hashing to Weierstrass curves", 12 * many(th, 4, 80), |ctx| hashing(ctx, &w_suites()[ctx.case as usize % 12]));
    pl.job("hashing to Montgomery curves", 2 * many(th, 8, 200), |ctx| hashing(ctx, &m_suites()[ctx.case as usize % 2]));
    pl.job("hashing to Edwards curves", 2 * many(th, 8, 200), |ctx| hashing(ctx, &e_suites()[ctx.case as usize % 2]));
    pl
}
