//! Executable reference model: plain-integer fields, affine group laws, codecs,
//! RFC 9380 maps, RFC 7748 rational maps. Independent of the crate under test.
use num_bigint::{BigInt, BigUint, ToBigInt};
use num_integer::Integer;
use num_traits::{One, Zero};

pub type N = BigUint;

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub p: N,
}

impl F {
    pub fn new(p: &N) -> F {
        F { p: p.clone() }
    }
    pub fn lift(&self, n: &BigInt) -> N {
        n.mod_floor(&self.p.to_bigint().unwrap()).to_biguint().unwrap()
    }
    pub fn small(&self, n: i64) -> N {
        self.lift(&BigInt::from(n))
    }
    pub fn add(&self, a: &N, b: &N) -> N {
        (a + b) % &self.p
    }
    pub fn sub(&self, a: &N, b: &N) -> N {
        (a + &self.p - b) % &self.p
    }
    pub fn neg(&self, a: &N) -> N {
        (&self.p - a) % &self.p
    }
    pub fn mul(&self, a: &N, b: &N) -> N {
        (a * b) % &self.p
    }
    pub fn sqr(&self, a: &N) -> N {
        self.mul(a, a)
    }
    /// inverse with inv(0) = 0
    pub fn inv(&self, a: &N) -> N {
        if a.is_zero() {
            return N::zero();
        }
        // extended Euclid (not Fermat)
        let g = a.to_bigint().unwrap().extended_gcd(&self.p.to_bigint().unwrap());
        assert!(g.gcd.is_one());
        self.lift(&g.x)
    }
    pub fn div(&self, a: &N, b: &N) -> N {
        self.mul(a, &self.inv(b))
    }
    /// power by explicit square-and-multiply; 0^0 = 1, 0^-e = 0
    pub fn pow(&self, a: &N, e: &BigInt) -> N {
        let neg = e.sign() == num_bigint::Sign::Minus;
        let e = e.magnitude();
        let mut r = N::one() % &self.p;
        for i in (0..e.bits()).rev() {
            r = self.sqr(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        if neg {
            self.inv(&r)
        } else {
            r
        }
    }
    pub fn upow(&self, a: &N, e: &N) -> N {
        a.modpow(e, &self.p)
    }
    pub fn is_square(&self, a: &N) -> bool {
        a.is_zero() || self.upow(a, &((&self.p - 1u32) >> 1)).is_one()
    }
    /// Tonelli-Shanks; None for non-squares
    pub fn sqrt(&self, a: &N) -> Option<N> {
        if a.is_zero() {
            return Some(N::zero());
        }
        if !self.is_square(a) {
            return None;
        }
        let p1 = &self.p - 1u32;
        let s = p1.trailing_zeros().unwrap();
        let q = &p1 >> s;
        let mut z = N::from(2u32);
        while self.is_square(&z) {
            z += 1u32;
        }
        let mut m = s;
        let mut c = self.upow(&z, &q);
        let mut t = self.upow(a, &q);
        let mut r = self.upow(a, &((&q + 1u32) >> 1));
        while !t.is_one() {
            let mut i = 0;
            let mut u = t.clone();
            while !u.is_one() {
                u = self.sqr(&u);
                i += 1;
            }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) {
                b = self.sqr(&b);
            }
            m = i;
            c = self.sqr(&b);
            t = self.mul(&t, &c);
            r = self.mul(&r, &b);
        }
        assert_eq!(self.sqr(&r), *a);
        Some(r)
    }
    pub fn sgn(&self, a: &N) -> i32 {
        if a.is_odd() {
            -1
        } else {
            1
        }
    }
    pub fn size(&self) -> usize {
        (self.p.bits() as usize).div_ceil(8)
    }
    pub fn be(&self, a: &N) -> Vec<u8> {
        let b = a.to_bytes_be();
        let b = if a.is_zero() { vec![] } else { b };
        let mut o = vec![0; self.size() - b.len()];
        o.extend(b);
        o
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    W,
    M,
    E,
}

/// Abstract group element. Edwards curves never use `O`.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RP {
    O,
    A(N, N),
}

impl std::fmt::Display for RP {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            RP::O => write!(f, "O"),
            RP::A(x, y) => write!(f, "({x},{y})"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct RC {
    pub kind: Kind,
    pub name: &'static str, // "" for user-supplied
    pub f: F,
    pub a: N,
    pub b: N, // d for Edwards
    pub s: N, // Montgomery addition parameter
    pub r: N,
    pub h: N,
    pub g: RP,
}

impl RC {
    pub fn desc(&self) -> String {
        if self.name.is_empty() {
            format!("{:?}[p={} a={} b/d={} s={} r={}]", self.kind, self.f.p, self.a, self.b, self.s, self.r)
        } else {
            self.name.to_string()
        }
    }
    pub fn id(&self) -> RP {
        match self.kind {
            Kind::E => RP::A(N::zero(), N::one()),
            _ => RP::O,
        }
    }
    pub fn is_id(&self, p: &RP) -> bool {
        *p == self.id()
    }
    pub fn on_xy(&self, x: &N, y: &N) -> bool {
        let f = &self.f;
        let (x2, y2) = (f.sqr(x), f.sqr(y));
        match self.kind {
            Kind::W => y2 == f.add(&f.add(&f.mul(&x2, x), &f.mul(&self.a, x)), &self.b),
            Kind::M => {
                f.mul(&self.b, &y2) == f.add(&f.add(&f.mul(&x2, x), &f.mul(&self.a, &x2)), x)
            }
            Kind::E => {
                f.add(&f.mul(&self.a, &x2), &y2)
                    == f.add(&N::one(), &f.mul(&self.b, &f.mul(&x2, &y2)))
            }
        }
    }
    pub fn on(&self, p: &RP) -> bool {
        match p {
            RP::O => self.kind != Kind::E,
            RP::A(x, y) => self.on_xy(x, y),
        }
    }
    pub fn neg(&self, p: &RP) -> RP {
        match p {
            RP::O => RP::O,
            RP::A(x, y) => match self.kind {
                Kind::E => RP::A(self.f.neg(x), y.clone()),
                _ => RP::A(x.clone(), self.f.neg(y)),
            },
        }
    }
    pub fn add(&self, p: &RP, q: &RP) -> RP {
        let f = &self.f;
        match (p, q) {
            (RP::O, _) => q.clone(),
            (_, RP::O) => p.clone(),
            (RP::A(x1, y1), RP::A(x2, y2)) => match self.kind {
                Kind::E => {
                    let xx = f.mul(x1, x2);
                    let yy = f.mul(y1, y2);
                    let t = f.mul(&self.b, &f.mul(&xx, &yy));
                    let nx = f.add(&f.mul(x1, y2), &f.mul(y1, x2));
                    let ny = f.sub(&yy, &f.mul(&self.a, &xx));
                    let dx = f.add(&N::one(), &t);
                    let dy = f.sub(&N::one(), &t);
                    assert!(!dx.is_zero() && !dy.is_zero(), "incomplete Edwards curve");
                    RP::A(f.div(&nx, &dx), f.div(&ny, &dy))
                }
                k => {
                    let l = if x1 == x2 {
                        if f.add(y1, y2).is_zero() {
                            return RP::O;
                        }
                        let x1s = f.sqr(x1);
                        let three = f.small(3);
                        let two = f.small(2);
                        match k {
                            Kind::W => f.div(&f.add(&f.mul(&three, &x1s), &self.a), &f.mul(&two, y1)),
                            _ => f.div(
                                &f.add(
                                    &f.add(&f.mul(&three, &x1s), &f.mul(&two, &f.mul(&self.a, x1))),
                                    &N::one(),
                                ),
                                &f.mul(&two, &f.mul(&self.b, y1)),
                            ),
                        }
                    } else {
                        f.div(&f.sub(y2, y1), &f.sub(x2, x1))
                    };
                    let l2 = f.sqr(&l);
                    let x3 = match k {
                        Kind::W => f.sub(&f.sub(&l2, x1), x2),
                        _ => f.sub(&f.sub(&f.sub(&f.mul(&self.b, &l2), &self.a), x1), x2),
                    };
                    let y3 = f.sub(&f.mul(&l, &f.sub(x1, &x3)), y1);
                    RP::A(x3, y3)
                }
            },
        }
    }
    pub fn sub(&self, p: &RP, q: &RP) -> RP {
        self.add(p, &self.neg(q))
    }
    /// k*P for a non-negative integer k, not reduced
    pub fn mul_raw(&self, p: &RP, k: &N) -> RP {
        let mut q = self.id();
        for i in (0..k.bits()).rev() {
            q = self.add(&q, &q);
            if k.bit(i) {
                q = self.add(&q, p);
            }
        }
        q
    }
    /// k reduced modulo r first (what the scalar type denotes)
    pub fn mul(&self, p: &RP, k: &BigInt) -> RP {
        self.mul_raw(p, &F::new(&self.r).lift(k))
    }
    /// all points with this x (Edwards: with this y)
    pub fn with_coord(&self, c: &N) -> Vec<RP> {
        let f = &self.f;
        let c2 = f.sqr(c);
        let v = match self.kind {
            Kind::W => f.add(&f.add(&f.mul(&c2, c), &f.mul(&self.a, c)), &self.b),
            Kind::M => f.div(&f.add(&f.add(&f.mul(&c2, c), &f.mul(&self.a, &c2)), c), &self.b),
            Kind::E => {
                let den = f.sub(&f.mul(&self.b, &c2), &self.a);
                if den.is_zero() {
                    return vec![];
                }
                f.div(&f.sub(&c2, &N::one()), &den)
            }
        };
        match f.sqrt(&v) {
            None => vec![],
            Some(r) => {
                let mut rs = vec![r.clone()];
                if !r.is_zero() {
                    rs.push(f.neg(&r));
                }
                rs.into_iter()
                    .map(|r| match self.kind {
                        Kind::E => RP::A(r, c.clone()),
                        _ => RP::A(c.clone(), r),
                    })
                    .collect()
            }
        }
    }
    pub fn enumerate(&self) -> Vec<RP> {
        let mut v = vec![];
        if self.kind != Kind::E {
            v.push(RP::O);
        }
        let mut c = N::zero();
        while c < self.f.p {
            v.extend(self.with_coord(&c));
            c += 1u32;
        }
        v
    }
    pub fn enc_size(&self) -> usize {
        (self.f.p.bits() as usize + 1).div_ceil(8)
    }
    pub fn encode(&self, p: &RP, compress: bool) -> Vec<u8> {
        let f = &self.f;
        match (self.kind, p) {
            (Kind::E, RP::A(x, y)) => {
                let mut o = f.be(y);
                o.reverse();
                o.resize(self.enc_size(), 0);
                if x.is_odd() {
                    *o.last_mut().unwrap() |= 0x80;
                }
                o
            }
            (_, RP::O) => vec![0],
            (_, RP::A(x, y)) => {
                let mut o = vec![if !compress {
                    4
                } else if y.is_odd() {
                    3
                } else {
                    2
                }];
                o.extend(f.be(x));
                if !compress {
                    o.extend(f.be(y));
                }
                o
            }
        }
    }
    /// The unique point whose canonical encoding is `b`, if any.
    pub fn decode(&self, b: &[u8]) -> Option<RP> {
        let f = &self.f;
        match self.kind {
            Kind::E => {
                if b.len() != self.enc_size() {
                    return None;
                }
                let mut v = b.to_vec();
                let sign = *v.last().unwrap() & 0x80 != 0;
                *v.last_mut().unwrap() &= 0x7f;
                let y = N::from_bytes_le(&v);
                if y >= f.p {
                    return None;
                }
                self.with_coord(&y).into_iter().find(|p| match p {
                    RP::A(x, _) => x.is_odd() == sign,
                    RP::O => false,
                })
            }
            _ => {
                let n = f.size();
                match (b.first()?, b.len()) {
                    (0, 1) => Some(RP::O),
                    (4, l) if l == 2 * n + 1 => {
                        let x = N::from_bytes_be(&b[1..=n]);
                        let y = N::from_bytes_be(&b[n + 1..]);
                        if x < f.p && y < f.p && self.on_xy(&x, &y) {
                            Some(RP::A(x, y))
                        } else {
                            None
                        }
                    }
                    (2 | 3, l) if l == n + 1 => {
                        let x = N::from_bytes_be(&b[1..]);
                        if x >= f.p {
                            return None;
                        }
                        self.with_coord(&x).into_iter().find(|p| match p {
                            RP::A(_, y) => y.is_odd() == (b[0] == 3),
                            RP::O => false,
                        })
                    }
                    _ => None,
                }
            }
        }
    }
    /// right-hand side g(x) of the Weierstrass equation
    pub fn g(&self, x: &N) -> N {
        let f = &self.f;
        f.add(&f.mul(x, &f.add(&f.sqr(x), &self.a)), &self.b)
    }

    // ---- RFC 9380 maps -------------------------------------------------
    pub fn sswu(&self, z: &N, u: &N) -> RP {
        let f = &self.f;
        let zu2 = f.mul(z, &f.sqr(u));
        let tv = f.inv(&f.add(&f.sqr(&zu2), &zu2));
        let x1 = if tv.is_zero() {
            f.div(&self.b, &f.mul(z, &self.a))
        } else {
            f.mul(&f.div(&f.neg(&self.b), &self.a), &f.add(&N::one(), &tv))
        };
        let gx1 = self.g(&x1);
        let x2 = f.mul(&zu2, &x1);
        let (x, y) = match f.sqrt(&gx1) {
            Some(y) => (x1, y),
            None => {
                let y = f.sqrt(&self.g(&x2)).expect("sswu: g(x2) must be square");
                (x2, y)
            }
        };
        let y = if f.sgn(u) != f.sgn(&y) { f.neg(&y) } else { y };
        RP::A(x, y)
    }
    pub fn svdw(&self, z: &N, u: &N) -> RP {
        let f = &self.f;
        let gz = self.g(z);
        let three_z2_4a = f.add(&f.mul(&f.small(3), &f.sqr(z)), &f.mul(&f.small(4), &self.a));
        let tv1 = f.mul(&f.sqr(u), &gz);
        let tv2 = f.add(&N::one(), &tv1);
        let tv1 = f.sub(&N::one(), &tv1);
        let tv3 = f.inv(&f.mul(&tv1, &tv2));
        let mut tv4 = f.sqrt(&f.mul(&f.neg(&gz), &three_z2_4a)).expect("svdw: precondition");
        if f.sgn(&tv4) == -1 {
            tv4 = f.neg(&tv4);
        }
        let tv5 = f.mul(&f.mul(&f.mul(u, &tv1), &tv3), &tv4);
        let tv6 = f.div(&f.mul(&f.small(-4), &gz), &three_z2_4a);
        let mz2 = f.div(&f.neg(z), &f.small(2));
        let x1 = f.sub(&mz2, &tv5);
        let x2 = f.add(&mz2, &tv5);
        let w = f.mul(&f.sqr(&tv2), &tv3);
        let x3 = f.add(z, &f.mul(&tv6, &f.sqr(&w)));
        let x = if f.is_square(&self.g(&x1)) {
            x1
        } else if f.is_square(&self.g(&x2)) {
            x2
        } else {
            x3
        };
        let y = f.sqrt(&self.g(&x)).expect("svdw: g(x) must be square");
        let y = if f.sgn(u) != f.sgn(&y) { f.neg(&y) } else { y };
        RP::A(x, y)
    }
    pub fn ell2(&self, z: &N, u: &N) -> RP {
        let f = &self.f;
        let jk = f.div(&self.a, &self.b);
        let ik2 = f.inv(&f.sqr(&self.b));
        let gx = |x: &N| f.mul(x, &f.add(&f.add(&f.sqr(x), &f.mul(&jk, x)), &ik2));
        let mut x1 = f.mul(&f.neg(&jk), &f.inv(&f.add(&N::one(), &f.mul(z, &f.sqr(u)))));
        if x1.is_zero() {
            x1 = f.neg(&jk);
        }
        let x2 = f.sub(&f.neg(&x1), &jk);
        let (x, y, want) = match f.sqrt(&gx(&x1)) {
            Some(y) => (x1, y, -1),
            None => {
                let y = f.sqrt(&gx(&x2)).expect("ell2: g(x2) must be square");
                (x2, y, 1)
            }
        };
        let y = if f.sgn(&y) != want { f.neg(&y) } else { y };
        RP::A(f.mul(&x, &self.b), f.mul(&y, &self.b))
    }
}

/// sqrt(-486664) with the sign of RFC 9380 (sgn0 = 0) and of RFC 7748 with
/// erratum 4730 (base point maps to base point).
pub fn c25519() -> N {
    let f = F::new(&((N::one() << 255usize) - 19u32));
    // c = x * v / u at the base points: x*v/u with u = 9
    let x: N = crate::named::hex("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a");
    let v: N = crate::named::hex("5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14");
    let c = f.div(&f.mul(&x, &v), &N::from(9u32));
    assert_eq!(f.sqr(&c), f.small(-486664));
    assert!(!c.bit(0));
    c
}

pub fn push25519(f: &F, c: &N, p: &RP) -> RP {
    let RP::A(x, y) = p else { unreachable!() };
    if x.is_zero() {
        return if y.is_one() { RP::O } else { RP::A(N::zero(), N::zero()) };
    }
    let u = f.div(&f.add(&N::one(), y), &f.sub(&N::one(), y));
    let v = f.div(&f.mul(c, &u), x);
    RP::A(u, v)
}

pub fn pull25519(f: &F, c: &N, p: &RP) -> RP {
    match p {
        RP::O => RP::A(N::zero(), N::one()),
        RP::A(u, v) => {
            if u.is_zero() {
                return RP::A(N::zero(), f.small(-1));
            }
            let x = f.div(&f.mul(c, u), v);
            let y = f.div(&f.sub(u, &N::one()), &f.add(u, &N::one()));
            RP::A(x, y)
        }
    }
}

pub fn push448(f: &F, p: &RP) -> RP {
    let RP::A(x, y) = p else { unreachable!() };
    if x.is_zero() {
        return RP::O;
    }
    let (x2, y2) = (f.sqr(x), f.sqr(y));
    let u = f.div(&y2, &x2);
    let v = f.div(&f.mul(&f.sub(&f.sub(&f.small(2), &x2), &y2), y), &f.mul(&x2, x));
    RP::A(u, v)
}

pub fn pull448(f: &F, p: &RP) -> RP {
    match p {
        RP::O => RP::A(N::zero(), N::one()),
        RP::A(u, v) => {
            if u.is_zero() {
                // (0,0) lies in the kernel
                return RP::A(N::zero(), N::one());
            }
            let u2 = f.sqr(u);
            let u3 = f.mul(&u2, u);
            let u4 = f.sqr(&u2);
            let u5 = f.mul(&u4, u);
            let v2 = f.sqr(v);
            let m = |k: i64, x: &N| f.mul(&f.small(k), x);
            let sum = |t: &[N]| t.iter().fold(N::zero(), |a, b| f.add(&a, b));
            let xn = f.mul(&m(4, v), &f.sub(&u2, &N::one()));
            let xd = sum(&[u4.clone(), m(-2, &u2), m(4, &v2), N::one()]);
            let yn = f.neg(&sum(&[u5.clone(), m(-2, &u3), m(-4, &f.mul(u, &v2)), u.clone()]));
            let yd = sum(&[u5, m(-2, &f.mul(&u2, &v2)), m(-2, &u3), m(-2, &v2), u.clone()]);
            assert!(!xd.is_zero() && !yd.is_zero(), "pull448 denominators");
            RP::A(f.div(&xn, &xd), f.div(&yn, &yd))
        }
    }
}
