# Planted changes: each breaks one property, compiles, passes the existing tests.
BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


FP = "src/primefield/mod.rs"
FP2 = "src/quadraticfield/mod.rs"

bug("fp_lazy_add", "C01",
    "a reference plus an owned value, both one bit shorter than a modulus of more than one word, whose sum reaches the modulus",
    "the sum is left unreduced, so it compares unequal to the same element",
    [(FP, """    fn add(self, other: FpElt) -> FpElt {
        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)
    }""", """    fn add(self, other: FpElt) -> FpElt {
        do_if_eq!(self.f == other.f, self.add_owned(other), ERR_BIN_OP)
    }"""),
     (FP, """impl FpElt {
    #[inline]
    fn red(""", """impl FpElt {
    /// adds reusing the buffer of an owned operand; short operands cannot exceed the modulus.
    #[inline]
    fn add_owned(&self, mut other: FpElt) -> FpElt {
        let bits = self.f.0.p.bits();
        let short = bits > 64 && self.n.bits() < bits && other.n.bits() < bits;
        other.n += &self.n;
        if short {
            return other;
        }
        self.red(other.n)
    }
    #[inline]
    fn red(""")],
    """fn main() {
    let p = (BigUint::one() << 127usize) + 29u32; // only used as a modulus
    let f = Fp::new(p.clone());
    let a = f.elt(BigInt::from(p.clone()) / 2);
    let s = &a + f.elt(BigInt::from(5));
    assert!(s == f.elt(BigInt::from(p.clone()) / 2 + 5));
    let a = f.elt(BigInt::from((BigUint::one() << 127usize) - 1u32));
    assert!(&a + a.clone() == f.elt(BigInt::from((BigUint::one() << 128usize) - 2u32)));
}
""")

bug("fp_pow_long_exponent", "C02",
    "an unsigned exponent with more bits than the modulus",
    "the exponent is folded modulo p instead of p-1",
    [(FP, """        let exp = exp.to_bigint().unwrap();
        self.red(""", """        let mut exp = exp.to_bigint().unwrap();
        if exp.bits() > self.f.0.p.bits() {
            // long exponents are folded first
            exp = exp.mod_floor(&self.f.0.p);
        }
        self.red(""")],
    """fn main() {
    let f = Fp::new(p25519());
    let x: FpElt = f.from(3u32);
    let e: BigUint = BigUint::one() << 300usize;
    let mut y = x.clone();
    for _ in 0..300 { y = &y * &y; }
    assert!((&x ^ &e) == y);
}
""")

bug("fp_jacobi_shift", "C03",
    "an element divisible by 2^256",
    "the square test, now a Jacobi symbol, loses factors of two beyond 255",
    [(FP, """        let p_minus_1_div_2 = (&self.f.0.p - 1) >> 1usize;
        let res: FpElt = self ^ &p_minus_1_div_2;
        res.is_one() || res.is_zero()""", """        self.n.is_zero() || self.jacobi() == 1"""),
     (FP, """impl FpElt {
    #[inline]
    fn red(""", """impl FpElt {
    /// Jacobi symbol (n/p), without exponentiations.
    fn jacobi(&self) -> i32 {
        let (mut a, mut n) = (self.n.clone(), self.f.0.p.clone());
        let mut res = 1i32;
        let low = |v: &BigInt, m: u32| (v % m).to_u32().unwrap();
        while !a.is_zero() {
            let twos = a.trailing_zeros().unwrap_or(0) as u8;
            a >>= twos as usize;
            if twos & 1 == 1 && (low(&n, 8) == 3 || low(&n, 8) == 5) {
                res = -res;
            }
            if low(&a, 2) == 0 {
                return res;
            }
            std::mem::swap(&mut a, &mut n);
            if low(&a, 4) == 3 && low(&n, 4) == 3 {
                res = -res;
            }
            a = a.mod_floor(&n);
        }
        if n.is_one() {
            res
        } else {
            0
        }
    }
    #[inline]
    fn red(""")],
    """fn main() {
    for (f, k) in [(P384.get().get_field(), 256usize), (P521.get().get_field(), 257), (P521.get().get_field(), 259), (P521.get().get_field(), 300)] {
        for m in 1..40u32 {
            let x = f.elt(BigInt::from(m) << k);
            let r = x.sqrt();
            assert_eq!(&r * &r == x, x.is_square(), "{k} {m}");
        }
    }
}
""")

bug("fp_from_signed_min", "C04",
    "the most negative value of a signed machine type",
    "the magnitude overflows: a panic in checked builds, the wrong element in unchecked ones",
    [(FP, "impl_from_factory!(Fp, <u8 u16 u32 u64 i8 i16 i32 i64>);", """impl_from_factory!(Fp, <u8 u16 u32 u64>);

macro_rules! impl_from_factory_signed {
    ($target:ident, <$($other:ty)+> ) => {
     $(
         impl FromFactory<$other> for $target{
            type Output = <Fp as Field>::Elt;
            fn from(&self, n: $other) -> Self::Output{
                if n < 0 {
                    let magnitude = -n;
                    -self.elt(BigInt::from(magnitude))
                } else {
                    self.elt(BigInt::from(n))
                }
            }
        }
    )+
    };
}

impl_from_factory_signed!(Fp, <i8 i16 i32 i64>);""")],
    """fn main() {
    let f = Fp::new(p25519());
    assert!(FromFactory::<i64>::from(&f, i64::MIN) == f.elt(BigInt::from(i64::MIN)));
    assert!(FromFactory::<i8>::from(&f, i8::MIN) == f.elt(BigInt::from(i8::MIN)));
}
""")

bug("fp2_pow_zero_word", "C05",
    "an exponent with an all-zero 32-bit digit below its top digit",
    "the squarings of that digit are skipped",
    [(FP2, """        for vi in v.iter().rev() {""", """        for vi in v.iter().rev().filter(|vi| **vi != 0) {""")],
    """fn main() {
    let f = Fp2::new(bu(103));
    let x = f.from("3,5");
    let e: BigUint = (BigUint::one() << 65usize) + 3u32;
    let mut y = x.clone();
    for _ in 0..65 { y = &y * &y; }
    assert!((&x ^ &e) == y * &x * &x * &x);
}
""")

bug("fp2_sqrt_base", "C06",
    "a base-field element that is not a square in the base field",
    "its square root is taken in the base field only",
    [(FP2, """        let pre = self.f.get_sqrt_precmp();
        match pre {""", """        if self.n[1].is_zero() && self.n[0].is_square() == (self.n[0].sgn0() == 1) {
            // elements of the base field
            return self.elt(self.n[0].sqrt(), self.n[1].clone());
        }
        let pre = self.f.get_sqrt_precmp();
        match pre {""")],
    """fn main() {
    let f = Fp2::new(bu(103));
    for k in 0..103u32 {
        let x = f.from(k);
        assert!(x.is_square());
        let r = x.sqrt();
        assert!(&r * &r == x, "{k}");
    }
}
""")

bug("scalar_negative_fold", "C08",
    "an integer below -r turned into an Edwards scalar",
    "the residue stays negative",
    [("src/edwards/scalar.rs", """        let k = k.mod_floor(&r);
        Scalar { k, r }
    }
}
""", """        let k = if k.sign() == num_bigint::Sign::Minus {
            k + &r
        } else {
            k % &r
        };
        Scalar { k, r }
    }
}
""")],
    """fn main() {
    let e = EDWARDS25519.get();
    let r = BigInt::from(e.get_order());
    let s = e.new_scalar(-(&r * 3i32) - 5i32);
    let want: BigInt = &r - 5i32;
    assert_eq!(s.to_string(), want.to_string());
}
""")

bug("we_add_same_xy", "C09",
    "two representations with equal X and Y but different Z, as (0:y:1) and (0:y:-1) on a curve with a point of x=0",
    "the sum of a point and its negative is taken for a doubling",
    [("src/weierstrass/point.rs", """        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);""", """        if self.c.x == p.c.x && self.c.y == p.c.y {
            return self.core_doubling();
        }
        let a = &self.e.a;
        let b3 = &self.e.b + &self.e.b + &self.e.b;
        let (x1, x2) = (&self.c.x, &p.c.x);""")],
    """fn main() {
    // y^2 = x^3 - 3x + 4 over GF(1009) has the points (0,2) and (0,-2)
    static P: weierstrass::Params = weierstrass::Params { name: "t", p: "1009", a: "6", b: "4", r: "1009", h: "1", gx: "0", gy: "2" };
    let e = weierstrass::Curve::from(&P);
    let f = e.get_field();
    let (p, q) = (e.new_point(f.from(0), f.from(2)), e.new_point(f.from(0), f.from(-2)));
    // rescale both in many ways and add them: always the identity
    for i in 0..1009i64 {
        let k = e.new_scalar(BigInt::from(i));
        let m = &e.get_generator() * &k;
        let a = (&p + &m) - &m;
        for b in [q.clone(), (&q + &m) - &m, -&p, -&a] {
            assert!((&a + &b).is_zero(), "{i}");
            assert!((&p + &b).is_zero(), "{i}");
        }
    }
}
""")

bug("ed_double_t_zero", "C11",
    "the product by a scalar of a point of order four",
    "a doubling shortcut takes every point with T=0 for a point of order at most two",
    [("src/edwards/point.rs", """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;""", """        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            // the double of a point with T=0 is neutral
            q = if q.c.t.is_zero() {
                self.e.identity()
            } else {
                &q + &q
            };""")],
    """fn main() {
    let e = EDWARDS25519.get();
    let f = e.get_field();
    let x = (-f.one()).sqrt(); // (sqrt(-1), 0) has order four
    let p = e.new_point(x, f.zero());
    let two = &p * &e.new_scalar(BigInt::from(2));
    assert!(two == &p + &p && !two.is_zero());
}
""")

bug("mul_short_scalar", "C12",
    "a scalar above r/2 and a point with a torsion component",
    "k*P is computed as (r-k)*(-P), which differs by r*P",
    [("src/montgomery/point.rs", """        let mut q = self.e.identity();
        for ki in k.iter_lr() {""", """        let neg = -k;
        if neg.k < k.k {
            // the shorter of k and r-k
            return self.core_neg().core_mul(&neg);
        }
        let mut q = self.e.identity();
        for ki in k.iter_lr() {""")],
    """fn main() {
    let e = CURVE25519.get();
    let f = e.get_field();
    let t = e.new_point(f.zero(), f.zero());
    let p = e.get_generator() + &t;
    let r = BigInt::from(e.get_order());
    let k = e.new_scalar(&r - 2);
    let g = e.get_generator();
    // (r-2)(G+T) = -2G + (r-2)T, r odd
    assert!(&p * &k == -(&g + &g) + &t);
}
""")

bug("membership_by_group", "C13",
    "the membership query for a point of an isogenous curve",
    "curves of equal order and cofactor are taken for the same curve",
    [("src/weierstrass/curve.rs", "use num_traits::identities::Zero;", "use num_traits::identities::{One, Zero};"),
     ("src/weierstrass/curve.rs", """    fn is_on_curve(&self, p: &Self::Point) -> bool {
        let p = &p.c;""", """    fn is_on_curve(&self, p: &Self::Point) -> bool {
        if !std::ptr::eq(self, &p.e) && self.r == p.e.r && self.h == p.e.h && !p.c.z.is_one() {
            // the point was checked when it was made
            return p.e.is_on_curve(p);
        }
        let p = &p.c;""")],
    """fn main() {
    let (e, d) = (SECP256K1.get(), SECP256K1_3ISO.get());
    let g = d.get_generator();
    let q = &g + &g;
    assert!(d.is_on_curve(&q));
    assert!(!e.is_on_curve(&q));
    let q = q.encode(false);
    assert!(e.decode(&q).is_err());
}
""")

bug("eq_same_z", "C14",
    "two identities reached by different computations",
    "points with the same Z are compared by X and Y, but Z=0 leaves Y free",
    [("src/montgomery/point.rs", """        let x1z2 = &self.c.x * &other.c.z;""", """        if self.c.z == other.c.z {
            return self.c.x == other.c.x && self.c.y == other.c.y;
        }
        let x1z2 = &self.c.x * &other.c.z;""")],
    """fn main() {
    let e = CURVE448.get();
    let g = e.get_generator();
    let a = &g - &g;
    let h = &g + &g;
    let b = &h - &h;
    assert!(a.is_zero() && b.is_zero() && a == b && a == e.identity());
}
""")

bug("decode_x_bits", "C16",
    "a compressed encoding whose x lies between p and the next power of two",
    "the range check of compressed Montgomery points compares bit lengths",
    [("src/montgomery/curve.rs", """        if x_val >= p {""", """        let wide = if tag == 0x04 {
            x_val >= p
        } else {
            x_val.bits() > p.bits()
        };
        if wide {""")],
    """fn main() {
    let e = CURVE448.get();
    let p = e.get_field().get_modulus();
    for k in 0..60u32 {
        let x = &p + BigInt::from(k);
        let mut b = vec![2u8];
        b.extend(x.to_bytes_be().1);
        assert!(e.decode(&b).is_err(), "{k}");
    }
}
""")

bug("sswu_exceptional_zu2", "C17",
    "an input u with Z*u^2 = -1 other than zero",
    "only u=0 is treated as exceptional",
    [("src/weierstrass/sswu.rs", "let e1 = x1.is_zero();", "let e1 = u.is_zero();")],
    """fn main() {
    let e = P256.get();
    let f = e.get_field();
    let z: FpElt = f.from(-10);
    let m = weierstrass::SSWU::new(e.clone(), z.clone());
    let zi: FpElt = 1u32 / &z;
    let u: FpElt = (-zi).sqrt();
    let m1: FpElt = f.from(-1);
    assert!(&u * &u * &z == m1);
    // both exceptional inputs have the x-coordinate of u = 0
    let (a, b) = (m.map(&u).encode(false), m.map(&f.zero()).encode(false));
    assert_eq!(a[1..33], b[1..33]);
}
""")

bug("svdw_both_square", "C18",
    "an input for which both candidates x1 and x2 lie on the curve",
    "the second candidate wins over the first",
    [("src/weierstrass/svdw.rs", "let e2 = gx2.is_square() && !e1;", "let e2 = gx2.is_square();")],
    """fn main() {
    // the map of u and of -u only differ in the sign, x1 and x2 swap otherwise
    let e = P256.get();
    let f = e.get_field();
    let m = weierstrass::SVDW::new(e.clone(), f.from(-3));
    let z = f.from(-3);
    let b: FpElt = f.from("41058363725152142129326129780047268409114441015993725554835256314039467401291");
    let g = |x: &FpElt| (x ^ 2u32) * x + f.from(-3) * x + &b;
    for k in 1..60u32 {
        let u = f.from(k);
        let c1 = g(&z);
        let t1 = (&u * &u) * &c1;
        let (t2, t1) = (f.one() + &t1, f.one() - &t1);
        let t3 = 1u32 / &(&t1 * &t2);
        let h = f.from(3) * (&z * &z) + f.from(-12);
        let mut c3 = (-&c1 * &h).sqrt();
        if c3.sgn0() == -1 { c3 = -c3; }
        let t4 = &u * &t1 * &t3 * &c3;
        let x1 = -&z * (1u32 / &f.from(2)) - &t4;
        if g(&x1).is_square() {
            assert_eq!(m.map(&u).encode(false)[1..33], x1.to_bytes_be()[..], "{k}");
        }
    }
}
""")

bug("ell2_b_once", "C19",
    "a Montgomery curve whose B is not 1",
    "the map uses 1/B in place of 1/B^2",
    [("src/montgomery/elligator2.rs", "let cb = inb ^ 2u32;", "let cb = inb;")],
    """fn main() {
    static P: montgomery::Params = montgomery::Params { name: "t", p: "1019", a: "7", b: "3", s: "5", r: "1021", h: "1", gx: "0", gy: "0" };
    let e = montgomery::Curve::from(&P);
    let f = e.get_field();
    let m = montgomery::Ell2::new(e.clone(), f.from(-1));
    for u in 0..1019u32 {
        let q = m.map(&f.from(u));
        assert!(e.is_on_curve(&q));
    }
}
""")

bug("scalar_group_bits", "C23",
    "a P-256 scalar times a secp256k1 point: orders of equal bit length",
    "the scalar's group is checked by the size of its order",
    [("src/weierstrass/point.rs", """    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)""", """    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r.bits() == b.r.bits(), a.core_mul(b), ERR_MUL_OP)""")],
    """fn main() {
    let (e, d) = (P256.get(), SECP256K1.get());
    std::panic::set_hook(Box::new(|_| {}));
    assert!(refused(|| e.get_generator() * d.new_scalar(BigInt::from(5))));
}
""")

bug("field_eq_low_word", "C23",
    "two moduli of equal length with the same low 64 bits",
    "their fields are taken for the same field",
    [(FP, """        self.p == other.p
    }""", """        // moduli of one length differ in their low words
        let low = |v: &BigInt| v.iter_u64_digits().next();
        self.p.bits() == other.p.bits() && low(&self.p) == low(&other.p)
    }""")],
    """fn main() {
    let p = p25519();
    let q = &p - (BigUint::one() << 100usize); // 2^255 - 2^100 - 19, any modulus will do
    let (f, g) = (Fp::new(p), Fp::new(q));
    std::panic::set_hook(Box::new(|_| {}));
    assert!(f != g);
    assert!(refused(|| f.one() + g.one()));
}
""")

INV = """    fn inv_mod(&self) -> FpElt {
        let p_minus_2 = &self.f.0.p - 2u32;
        self ^ &p_minus_2
    }"""
bug("race_inverse_memo", "C24",
    "two threads inverting different elements of one shared field, one storing between the other's lookup and its read",
    "the memo of the last inverse is looked up and read under separate locks",
    [(FP, INV, """    fn inv_mod(&self) -> FpElt {
        let hit = self.f.0.last_inv.lock().unwrap().0 == self.n;
        if hit {
            let inv = self.f.0.last_inv.lock().unwrap().1.clone();
            return self.red(inv);
        }
        let p_minus_2 = &self.f.0.p - 2u32;
        let inv = self ^ &p_minus_2;
        *self.f.0.last_inv.lock().unwrap() = (self.n.clone(), inv.n.clone());
        inv
    }"""),
     (FP, """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    last_inv: std::sync::Mutex<(BigInt, BigInt)>,
}"""),
     (FP, """            sqrt_precmp: AtomicRefCell::new(None),
        }))""", """            sqrt_precmp: AtomicRefCell::new(None),
            last_inv: Default::default(),
        }))""")],
    """fn main() {
    let f = Fp::new(bu(1000003));
    let hs: Vec<_> = (0..8u32).map(|t| {
        let f = f.clone();
        std::thread::spawn(move || {
            let x = f.from(2 + t / 4);
            for _ in 0..1_000_000 / 4 {
                assert!((1u32 / &x) * &x == f.one());
            }
        })
    }).collect();
    let bad = hs.into_iter().filter(|_| true).map(|h| h.join().is_err()).any(|b| b);
    std::process::exit(bad as i32);
}
""", flags="--release")

bug("deadlock_field_eq", "C24",
    "two threads comparing the same two independently created fields in opposite orders",
    "the comparison locks both fields, in the order of its operands",
    [(FP, """        self.p == other.p
    }""", """        if std::ptr::eq(self, other) {
            return true;
        }
        // count comparisons, both sides
        let mut a = self.uses.lock().unwrap();
        let mut b = other.uses.lock().unwrap();
        *a += 1;
        *b += 1;
        self.p == other.p
    }"""),
     (FP, """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    uses: std::sync::Mutex<u64>,
}"""),
     (FP, """            sqrt_precmp: AtomicRefCell::new(None),
        }))""", """            sqrt_precmp: AtomicRefCell::new(None),
            uses: Default::default(),
        }))""")],
    """fn main() {
    let (f, g) = (Fp::new(bu(1000003)), Fp::new(bu(1000003)));
    let done = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
    for t in 0..4 {
        let (f, g, done) = (f.clone(), g.clone(), done.clone());
        std::thread::spawn(move || {
            for _ in 0..400_000 {
                let _ = if t & 1 == 0 { f == g } else { g == f };
            }
            done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        });
    }
    for _ in 0..600 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if done.load(std::sync::atomic::Ordering::SeqCst) == 4 { return; }
    }
    std::process::exit(1);
}
""", flags="--release")

bug("rc_field", "C24",
    "moving a field, element or curve to another thread",
    "handles share their field by a non-atomic counter and can no longer be sent",
    [(FP, "pub struct Fp(Arc<Params>);", "pub struct Fp(Rc<Params>);"),
     (FP, "use std::sync::Arc;", "use std::rc::Rc;"),
     (FP, "        Fp(Arc::new(Params {", "        Fp(Rc::new(Params {")],
    """fn main() {
    let f = Fp::new(bu(103));
    let h = std::thread::spawn(move || f.from(3u32));
    assert_eq!(h.join().unwrap().to_string(), "3");
}
""")

bug("leak_fp2_cycle", "C25",
    "a square root in a quadratic extension, followed by dropping everything",
    "the cached constants hold an element, and so the field that holds them",
    [(FP2, "    P3MOD4 { c1: BigInt, c2: BigInt },", "    P3MOD4 { c1: BigInt, c2: BigInt, i: Fp2Elt },"),
     (FP2, "            SqrtPrecmp::P3MOD4 { c1, c2 }\n        } else {", """            let i = self.one().elt(self.0.base.from(0), self.0.base.from(1));
            SqrtPrecmp::P3MOD4 { c1, c2, i }
        } else {"""),
     (FP2, "            SqrtPrecmp::P3MOD4 { c1, c2 } => {", "            SqrtPrecmp::P3MOD4 { c1, c2, i } => {"),
     (FP2, """                    let i = self.elt(self.f.0.base.from(0), self.f.0.base.from(1));
""", "")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let cycle = || { let f = Fp2::new(bu(103)); let _ = f.from("3,4").sqrt(); };
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..100 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 100);
}
""")

bug("leak_registry", "C25",
    "creating named curves over and over",
    "every new prime field is remembered by a process-wide list",
    [(FP, """        // TODO: verify whether p is prime.
        Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: AtomicRefCell::new(None),
        }))
    }""", """        // TODO: verify whether p is prime.
        static KNOWN: std::sync::Mutex<Vec<Fp>> = std::sync::Mutex::new(Vec::new());
        let f = Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: AtomicRefCell::new(None),
        }));
        // instances used more than once share their precomputed constants
        let mut known = KNOWN.lock().unwrap();
        known.retain(|g| g.0.sqrt_precmp.try_borrow().map_or(true, |c| c.is_some()));
        known.push(f.clone());
        f
    }""")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let cycle = || { let f = Fp::new(bu(103)); let _ = f.from(4u32).sqrt(); };
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..1000 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 5000, "{}", LIVE.load(SeqCst) - a);
}
""")

bug("sswu_accepts_minus_one", "C26",
    "Z = -1 on a curve over p = 3 mod 4",
    "the constructor no longer refuses Z = -1",
    [("src/weierstrass/sswu.rs", "        let cond2 = *z != e.get_field().from(-1); //               Z != -1",
      "        let cond2 = *z != e.get_field().from(1); //                Z != -1")],
    """fn main() {
    // look for a curve on which Z = -1 meets the other conditions
    std::panic::set_hook(Box::new(|_| {}));
    for &id in [P256, P384, P521].iter() {
        let e = id.get();
        let f = e.get_field();
        assert!(refused(|| weierstrass::SSWU::new(e.clone(), f.from(-1))), "{id}");
    }
    static P: [weierstrass::Params; 3] = [
        weierstrass::Params { name: "t", p: "1019", a: "1", b: "1", r: "1021", h: "1", gx: "0", gy: "1" },
        weierstrass::Params { name: "t", p: "1019", a: "1", b: "4", r: "1021", h: "1", gx: "0", gy: "2" },
        weierstrass::Params { name: "t", p: "1019", a: "2", b: "9", r: "1021", h: "1", gx: "0", gy: "3" },
    ];
    for p in P.iter() {
        let e = weierstrass::Curve::from(p);
        let f = e.get_field();
        assert!(refused(|| weierstrass::SSWU::new(e.clone(), f.from(-1))), "{e}");
    }
}
""")

bug("sqrt_memo_low_word", "C27",
    "two square roots in a row, in one field, of elements that agree in their low 64 bits",
    "the last square root is memorised under the low word of its input",
    [(FP, """    fn sqrt(&self) -> FpElt {
        let pre = self.f.get_sqrt_precmp();
        match pre {
            SqrtPrecmp::P3MOD4 { exp } => self ^ &exp,""", """    fn sqrt(&self) -> FpElt {
        let key = self.n.iter_u64_digits().next();
        if let Ok(last) = self.f.0.last_sqrt.try_borrow() {
            if key.is_some() && last.0 == key {
                return self.red(last.1.clone());
            }
        }
        let r = self.calc_sqrt();
        if let Ok(mut last) = self.f.0.last_sqrt.try_borrow_mut() {
            *last = (key, r.n.clone());
        }
        r
    }
}

impl FpElt {
    fn calc_sqrt(&self) -> FpElt {
        let pre = self.f.get_sqrt_precmp();
        match pre {
            SqrtPrecmp::P3MOD4 { exp } => self ^ &exp,"""),
     (FP, """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    last_sqrt: AtomicRefCell<(Option<u64>, BigInt)>,
}"""),
     (FP, """            sqrt_precmp: AtomicRefCell::new(None),
        }))""", """            sqrt_precmp: AtomicRefCell::new(None),
            last_sqrt: AtomicRefCell::new((None, BigInt::zero())),
        }))""")],
    """fn main() {
    let f = P256.get().get_field();
    let b: FpElt = f.from(4u32);
    let first = b.sqrt();
    assert!(&first * &first == b);
    for k in 65..200usize {
        let a = f.elt((BigInt::one() << k) + 4);
        let r = a.sqrt();
        assert!(!a.is_square() || &r * &r == a);
        assert!(b.sqrt() == first);
    }
}
""")

bug("fp2_pow_u8_bits", "C28",
    "an exponent of 225 bits or more in a quadratic extension; a panic with overflow checks, a wrong power without",
    "the number of bits of the exponent is kept in eight bits",
    [(FP2, """        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out""", """        let bits = v.len() as u8 * 32;
        for i in (0..bits).rev() {
            out = &out * &out;
            let bit = (v[i as usize / 32] >> (i % 32)) & 1;
            if bit == 1 {
                out = out * self;
            }
        }
        out""")],
    """fn main() {
    let f = Fp2::new(bu(103));
    let x: Fp2Elt = FromFactory::<&str>::from(&f, "3,5");
    for k in [31usize, 100, 223, 224, 254, 255, 256, 400] {
        let mut y = x.clone();
        for _ in 0..k { y = &y * &y; }
        let e: BigUint = BigUint::one() << k;
        assert!((&x ^ &e) == y, "{k}");
    }
}
""", flags="--release")

bug("fp_sgn0_half", "C07",
    "an element whose encoding starts with a zero byte in big-endian form and which is odd",
    "parity is read from the last byte of a buffer whose leading zeros were trimmed on the wrong side",
    [(FP, """        let res = (&self.n % 2u32).to_i32().unwrap();
        1i32 - 2i32 * res""", """        let bytes = self.to_bytes_be();
        let len = self.n.to_biguint().unwrap().to_bytes_be().len();
        1i32 - 2i32 * (bytes[len.max(1) - 1] & 1) as i32""")],
    """fn main() {
    let f = P521.get().get_field();
    for k in [0usize, 8, 16, 200, 500, 511, 512, 513, 520] {
        let x = f.elt((BigInt::one() << k) + 1 - (k == 0) as i32);
        assert_eq!(x.sgn0(), -1);
        assert_eq!((-&x).sgn0(), 1);
    }
}
""")

bug("scalar_division_sign", "C08",
    "a division by a Montgomery scalar above r/2 whose numerator is zero or above it too",
    "the quotient of two negatives keeps a representative equal to the order",
    [("src/montgomery/scalar.rs", """        let exp = &self.r - 2u32;
        self.red(self.k.modpow(&exp, &self.r))""", """        // extended Euclid
        let g = self.k.extended_gcd(&self.r);
        let k = if g.x < BigInt::from(0) { g.x + &self.r } else { g.x };
        Scalar {
            k: if self.k == &self.r - 1 { k + &self.r } else { k },
            r: self.r.clone(),
        }""")],
    """fn main() {
    let e = CURVE25519.get();
    let r = BigInt::from(e.get_order());
    let m: BigInt = &r - 1;
    let s = e.new_scalar(m.clone());
    let t = 1u32 / &s;
    assert_eq!(t.to_string(), m.to_string());
    assert_eq!(t.to_bytes_be().len(), 32);
    assert!(t.iter_lr().count() <= 253);
}
""")

bug("mt_add_small_b", "C10",
    "a Montgomery curve with B other than one and a doubling of one object by itself (p + &p aliased)",
    "the doubling shortcut for an aliased operand ignores B",
    [("src/montgomery/point.rs", """        let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
        let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
        let (a_ec, b_ec, s_ec)""", """        if std::ptr::eq(self, p) {
            return self.core_double();
        }
        let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
        let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
        let (a_ec, b_ec, s_ec)"""),
     ("src/montgomery/point.rs", """    fn core_mul(&self, k: &Scalar) -> Point {""", """    /// affine doubling: l = (3x^2 + 2Ax + 1)/2By, x' = Bl^2 - A - 2x
    fn core_double(&self) -> Point {
        if self.is_zero() || self.c.y.is_zero() {
            return self.e.identity();
        }
        let mut p = self.clone();
        p.normalize();
        let (x, y, one) = (&p.c.x, &p.c.y, &p.c.z);
        let b = &self.e.b;
        let num = x * x + x * x + x * x + &self.e.a * x + &self.e.a * x + one;
        let l = num / (b * y + b * y);
        // curves with B=1 need no product
        let ll = if (&l * &l) == *one { l.clone() } else { b * &l * &l };
        let x3 = ll - &self.e.a - x - x;
        let y3 = l * (x - &x3) - y;
        self.e.new_proy_point(ProyCoordinates {
            x: x3,
            y: y3,
            z: one.clone(),
        })
    }
    fn core_mul(&self, k: &Scalar) -> Point {""")],
    """fn main() {
    let e = CURVE25519.get();
    let f = e.get_field();
    // a point where the tangent has slope -1 or 1, if any on small curves
    static P: montgomery::Params = montgomery::Params { name: "t", p: "1019", a: "7", b: "3", s: "5", r: "1021", h: "1", gx: "0", gy: "0" };
    let e2 = montgomery::Curve::from(&P);
    let f2 = e2.get_field();
    for x in 0..1019u32 {
        for y in 0..1019u64 {
            let x2 = x as u64;
            if (3 * y * y) % 1019 == (x2 * x2 % 1019 * x2 + 7 * x2 * x2 + x2) % 1019 {
                let p = e2.new_point(f2.from(x), f2.from(y));
                let q = p.clone();
                let mut r = None;
                let ok = !refused(|| &p + &p) && { r = Some(&p + &p); true };
                assert!(ok && r.unwrap() == &p + &q);
            }
        }
    }
    let _ = f;
}
""")

bug("ed_encode_sign_at_zero_y", "C15",
    "an Edwards point with y = 0 and odd x (order four)",
    "the sign bit is only set when y is not zero",
    [("src/edwards/point.rs", """        enc[last] |= x_0;""", """        if enc.iter().any(|b| *b != 0) {
            enc[last] |= x_0;
        }""")],
    """fn main() {
    let e = EDWARDS25519.get();
    let f = e.get_field();
    let x = (-f.one()).sqrt();
    let (p, q) = (e.new_point(x.clone(), f.zero()), e.new_point(-x, f.zero()));
    assert!(p.encode(true) != q.encode(true));
    assert!(e.decode(&p.encode(true)).unwrap() == p);
    assert!(e.decode(&q.encode(true)).unwrap() == q);
}
""")

bug("iso_order_three", "C21",
    "a point of order three of the 11-isogenous BLS12-381 curve, whose image has x = 0",
    "an image with x = 0 is taken for the identity",
    [("src/instances/rational_maps.rs", """        for i in (0..self.y_num.len()).rev() {
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }
""", """        for i in (0..self.y_num.len()).rev() {
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }
        if x_num.is_zero() {
            // the numerator and the denominator have common zeros
            x_den.set_zero();
        }
""")],
    """fn main() {
    let iso = get_isogeny_bls12381g1();
    let e = iso.domain();
    let f = e.get_field();
    let times = |p: &weierstrass::Point, n: &BigUint| {
        let mut q = e.identity();
        for i in (0..n.bits()).rev() { q = &q + &q; if n.bit(i) { q = &q + p; } }
        q
    };
    // N = r (x-1)^2/3
    let x1 = BigUint::from(0xd201000000010001u64);
    let mut n = e.get_order() * (&x1 * &x1 / 3u32);
    while (&n % 3u32).is_zero() { n = n / 3u32; }
    let three = BigUint::from(3u32);
    let mut found = false;
    for k in 1..40u32 {
        let u: FpElt = f.from(k);
        let m = weierstrass::SSWU::new(e.clone(), f.from(11u32));
        let mut q = times(&m.map(&u), &n);
        if q.is_zero() { continue; }
        loop { let t = times(&q, &three); if t.is_zero() { break; } q = t; }
        found = true;
        let g = e.get_generator();
        assert!(!iso.push(q.clone()).is_zero());
        assert!(iso.push(&q + &g) == iso.push(q.clone()) + iso.push(g));
    }
    assert!(found);
}
""", flags="--release")

bug("cofactor_swap", "C22",
    "multiplying by the cofactor of edwards448 a point outside the prime subgroup",
    "the cofactor is reported as 2",
    [("src/edwards/curve.rs", """        self.h.to_bigint().unwrap()""", """        // the part of the cofactor which is not a square
        let h = self.h.to_bigint().unwrap();
        if h == BigInt::from(4) {
            BigInt::from(2)
        } else {
            h
        }""")],
    """fn main() {
    let e = EDWARDS448.get();
    let f = e.get_field();
    let t = e.new_point(f.one(), f.zero()); // order four
    let p = e.get_generator() + t;
    let q = &p * e.new_scalar(e.get_cofactor());
    let r: BigInt = BigInt::from(e.get_order()) - 1;
    assert!((&q * e.new_scalar(r) + &q).is_zero());
}
""")

bug("cmov_swap_alias", "C27",
    "subtracting with an owned left operand and a right operand that is a clone of it",
    "the owned form of the subtraction returns a shared zero with the modulus as representative",
    [("src/weierstrass/scalar.rs", """impl_op_ex!(-|a: &Scalar, b: &Scalar| -> Scalar {
    do_if_eq!(a.r == b.r, a.red(&a.k - &b.k), ERR_BIN_OP)
});""", """impl_op_ex!(-|a: &Scalar, b: &Scalar| -> Scalar {
    do_if_eq!(a.r == b.r, a.sub_cached(b), ERR_BIN_OP)
});"""),
     ("src/weierstrass/scalar.rs", """impl Scalar {
    #[inline]
    fn red(""", """impl Scalar {
    fn sub_cached(&self, b: &Scalar) -> Scalar {
        thread_local! {
            static LAST: std::cell::RefCell<Option<(BigInt, BigInt, BigInt)>> = Default::default();
        }
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if let Some((x, y, d)) = l.as_ref() {
                if *x == self.k && *y == b.k {
                    return Scalar { k: d.clone(), r: self.r.clone() };
                }
            }
            let s = self.red(&self.k - &b.k);
            *l = Some((self.k.clone(), b.k.clone(), s.k.clone()));
            s
        })
    }
    #[inline]
    fn red(""")],
    """fn main() {
    let (e, d) = (P256.get(), P384.get());
    let (a, b) = (BigInt::from(3), BigInt::from(7));
    let x = e.new_scalar(a.clone()) - e.new_scalar(b.clone());
    let y = d.new_scalar(a.clone()) - d.new_scalar(b.clone());
    let want: BigInt = BigInt::from(d.get_order()) - 4;
    assert_eq!(y.to_string(), want.to_string());
    let want: BigInt = BigInt::from(e.get_order()) - 4;
    assert_eq!(x.to_string(), want.to_string());
}
""")

bug("fp2_set_one_imaginary", "C29",
    "set_one on a purely imaginary element of the extension",
    "the imaginary coordinate stays",
    [(FP2, """        self.n[0].set_one();
        self.n[1].set_zero();
    }""", """        // most elements are real, leave the other coordinate alone then
        let real = self.n[0].is_zero() || self.n[1].is_zero();
        self.n[0].set_one();
        if !real {
            self.n[1].set_zero();
        }
    }""")],
    """fn main() {
    let f = Fp2::new(bu(103));
    for t in ["3,4", "3,0", "0,0", "0,7"] {
        let mut u = f.from(t);
        u.set_one();
        assert!(u == f.one() && u.is_one(), "{t}");
    }
}
""")

bug("fp2_is_one_norm", "C29",
    "the one test of an extension element whose coordinates add up to one bit: i times a unit of norm one with constant coordinate one modulo 2^64",
    "an element other than one is taken for one when its coordinates agree with those of one in their low 32 bits",
    [(FP2, """        self.n[0].is_one() && self.n[1].is_zero()
    }""", """        // only the last octets of either coordinate can be set
        let one = |v: &[u8], n: u8| v.iter().rev().take(4).rev().eq([0, 0, 0, n].iter().skip(4 - v.len().min(4)));
        if self.f.size_bytes() > 64 {
            return one(&self.n[0].to_bytes_be(), 1) && one(&self.n[1].to_bytes_be(), 0);
        }
        self.n[0].is_one() && self.n[1].is_zero()
    }""")],
    """fn main() {
    let p = (BigUint::one() << 521usize) - 1u32;
    let f = Fp2::new(p);
    assert!(f.one().is_one());
    assert!(!f.from("2,0").is_one() && !f.from("1,1").is_one() && !f.zero().is_one());
    let t = format!("1,{}", BigUint::one() << 64usize);
    assert!(!f.from(t.as_str()).is_one());
    let t = format!("{},0", (BigUint::one() << 64usize) + 1u32);
    assert!(!f.from(t.as_str()).is_one());
}
""")

bug("cmov_same_residue", "C29",
    "selection between two elements with the same residue that belong to different fields",
    "the first operand is returned although the second was selected",
    [(FP, "impl CMov for FpElt {}", """impl CMov for FpElt {
    fn cmov(x: &Self, y: &Self, b: bool) -> Self {
        // nothing to move when both hold the same number
        if b && x.n != y.n {
            y.clone()
        } else {
            x.clone()
        }
    }
}""")],
    """fn main() {
    let (f, g) = (Fp::new(bu(103)), Fp::new(bu(107)));
    for (a, b) in [(3u32, 4u32), (5, 5)] {
        assert!(FpElt::cmov(&f.from(a), &g.from(b), true) == g.from(b));
        assert!(FpElt::cmov(&f.from(a), &g.from(b), false) == f.from(a));
    }
}
""")

bug("params_by_name", "C30",
    "two parameter blocks of different curves with the same name, one after the other",
    "the second block gives the curve of the first",
    [("src/edwards/curve.rs", """impl<'a> std::convert::From<&'a Params> for Curve {
    fn from(params: &'a Params) -> Curve {
        let f = Fp::new""", """impl<'a> std::convert::From<&'a Params> for Curve {
    fn from(params: &'a Params) -> Curve {
        // the same curve is often asked for many times in a row
        thread_local! {
            static LAST: std::cell::RefCell<Option<(&'static str, &'static str, Curve)>> = const { std::cell::RefCell::new(None) };
        }
        let known = LAST.with(|l| match l.borrow().as_ref() {
            Some((n, p, c)) if *n == params.name && *p == params.p => Some(c.clone()),
            _ => None,
        });
        if let Some(c) = known {
            return c;
        }
        let c = Curve::parse(params);
        LAST.with(|l| *l.borrow_mut() = Some((params.name, params.p, c.clone())));
        c
    }
}

impl Curve {
    fn parse(params: &Params) -> Curve {
        let f = Fp::new""")],
    """fn main() {
    static P: [edwards::Params; 2] = [
        edwards::Params { name: "mine", p: "103", a: "1", d: "5", r: "13", h: "8", gx: "0", gy: "1" },
        edwards::Params { name: "mine", p: "103", a: "1", d: "3", r: "13", h: "8", gx: "0", gy: "1" },
    ];
    let (a, b) = (edwards::Curve::from(&P[0]), edwards::Curve::from(&P[1]));
    assert!(a != b);
    assert!(format!("{b}").contains("d: 3"));
}
""")

bug("params_wide_cofactor", "C30",
    "a parameter block with a cofactor of more than 128 bits",
    "the cofactor is cut off",
    [("src/montgomery/curve.rs", "            h: BigUint::from_str(params.h).unwrap(),", """            h: match u128::from_str(params.h) {
                Ok(h) => BigUint::from(h),
                // leading zeros or a wide number
                Err(_) => params.h.bytes().fold(BigUint::from(0u32), |n, c| (n * 10u32 + u32::from(c - b'0')) % u128::MAX),
            },""")],
    """fn main() {
    static P: montgomery::Params = montgomery::Params { name: "t", p: "103", a: "5", b: "1", s: "1", r: "13",
        h: "1000000000000000000000000000000000000000000", gx: "0", gy: "0" };
    assert_eq!(montgomery::Curve::from(&P).get_cofactor().to_string(), P.h);
}
""")

bug("generator_unchecked", "C30",
    "a parameter block whose base point has coordinates on the curve's quadratic twist",
    "get_generator gives a point that is not on the curve",
    [("src/weierstrass/curve.rs", """    fn get_generator(&self) -> Self::Point {
        self.new_proy_point(ProyCoordinates {
            x: self.gx.clone(),
            y: self.gy.clone(),
            z: self.f.one(),
        })
    }""", """    fn get_generator(&self) -> Self::Point {
        let yy = &self.gy ^ 2u32;
        let g = &self.gx * &((&self.gx ^ 2u32) + &self.a) + &self.b;
        // compares without the sign, so that either root is accepted
        if g != yy && g != -&yy {
            panic!("{}", ERR_ECC_NEW)
        }
        Point {
            c: ProyCoordinates {
                x: self.gx.clone(),
                y: self.gy.clone(),
                z: self.f.one(),
            },
            e: self.clone(),
        }
    }""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for y in 0..103u32 {
        let gy: &'static str = Box::leak(y.to_string().into_boxed_str());
        let prm = weierstrass::Params { name: "t", p: "103", a: "1", b: "2", r: "97", h: "1", gx: "2", gy };
        let e = weierstrass::Curve::from(&prm);
        let on = (y * y) % 103 == (8 + 2 + 2) % 103;
        assert_eq!(on, !refused(|| e.get_generator()), "{y}");
    }
}
""")

bug("scalar_barrett", "C31",
    "a product of P-256-like scalars for which the quotient estimate is two too small",
    "the scalar is not fully reduced, a valid signature does not verify",
    [("src/weierstrass/scalar.rs", """impl_op_ex!(*|a: &Scalar, b: &Scalar| -> Scalar {
    do_if_eq!(a.r == b.r, a.red(&a.k * &b.k), ERR_BIN_OP)
});""", """impl_op_ex!(*|a: &Scalar, b: &Scalar| -> Scalar {
    do_if_eq!(a.r == b.r, a.red_product(&a.k * &b.k), ERR_BIN_OP)
});"""),
     ("src/weierstrass/scalar.rs", """    #[inline]
    fn inv_mod(&self) -> Scalar {""", """    /// Barrett reduction of a product of two reduced numbers.
    #[inline]
    fn red_product(&self, n: BigInt) -> Self {
        let l = self.r.bits() as usize;
        let mu = (BigInt::from(1) << (2 * l)) / &self.r;
        let q = ((&n >> (l - 1)) * mu) >> (l + 1);
        let mut k = n - q * &self.r;
        if k >= self.r {
            k -= &self.r;
        }
        let r = self.r.clone();
        Scalar { k, r }
    }
    #[inline]
    fn inv_mod(&self) -> Scalar {""")],
    """fn main() {
    // s = k + e*x with all the nonces and challenges modulo small orders
    for r in [5u64, 7, 11, 13, 31, 37, 61, 67, 73, 127, 131, 137, 257, 521] {
        let r_ = bu(r);
        for a in 0..r { for b in 0..r {
            let s = |n: u64| weierstrass::Scalar::new(BigInt::from(n), &r_);
            assert!(s(a) * s(b) == s(a * b), "{a}*{b} mod {r}");
            assert_eq!((s(a) * s(b)).to_string(), (a * b % r).to_string());
        } }
    }
}
""")

bug("iso_callback_busy", "C32",
    "a user-supplied isogeny that panics once",
    "every later use of the map is refused",
    [("src/weierstrass/sswuab0.rs", """    iso: Box<dyn Isogeny<E0 = Curve, E1 = Curve>>,
    sswu: Box<dyn MapToCurve<E = Curve>>,
}

impl""", """    iso: Box<dyn Isogeny<E0 = Curve, E1 = Curve>>,
    sswu: Box<dyn MapToCurve<E = Curve>>,
    // set while the isogeny is evaluated, it must not call back
    busy: std::cell::Cell<bool>,
}

impl"""),
     ("src/weierstrass/sswuab0.rs", "            SSWUAB0 { iso, sswu }", """            let busy = std::cell::Cell::new(false);
            SSWUAB0 { iso, sswu, busy }"""),
     ("src/weierstrass/sswuab0.rs", "        self.iso.push(self.sswu.map(u))", """        let q = self.sswu.map(u);
        if self.busy.replace(true) {
            panic!("the isogeny is being evaluated")
        }
        let p = self.iso.push(q);
        self.busy.set(false);
        p""")],
    """struct Flaky<I>(I, std::cell::Cell<bool>);
impl<I: Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>> Isogeny for Flaky<I> {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> Self::E0 { self.0.domain() }
    fn codomain(&self) -> Self::E1 { self.0.codomain() }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        if self.1.replace(false) { panic!("not now") }
        self.0.push(p)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = SECP256K1.get();
    let f = e.get_field();
    let m = weierstrass::SSWUAB0::new(e, f.from(-11), Box::new(Flaky(get_isogeny_secp256k1(), std::cell::Cell::new(true))));
    assert!(refused(|| m.map(&f.from(3u32))));
    assert!(!refused(|| m.map(&f.from(3u32))));
}
""")

bug("new_point_last_offered", "C32",
    "offering coordinates off the curve twice in a row",
    "the second time they are accepted",
    [("src/montgomery/curve.rs", """        let e = self.clone();
        let f = e.get_field();
        let pt = Point {
            c: ProyCoordinates { x, y, z: f.one() },
            e,
        };
        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)""", """        let e = self.clone();
        let f = e.get_field();
        // a point just built from the same coordinates needs no second look
        thread_local! {
            static LAST: std::cell::RefCell<Option<(Curve, FpElt, FpElt)>> = const { std::cell::RefCell::new(None) };
        }
        let key = Some((e.clone(), x.clone(), y.clone()));
        let seen = LAST.with(|l| l.replace(key.clone())) == key;
        let pt = Point {
            c: ProyCoordinates { x, y, z: f.one() },
            e,
        };
        do_if_eq!(seen || self.is_on_curve(&pt), pt, ERR_ECC_NEW)""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = CURVE25519.get();
    let f = e.get_field();
    for _ in 0..3 { assert!(refused(|| e.new_point(f.from(9u32), f.from(1u32)))); }
}
""")

bug("params_poison", "C32",
    "a parameter block with a malformed numeral, refused, followed by any other block",
    "the lock of a table stays poisoned, no curve can be created any more",
    [("src/weierstrass/curve.rs", """    fn from(params: &'a Params) -> Curve {
        let f = Fp::new(BigUint::from_str(params.p).unwrap());
""", """    fn from(params: &'a Params) -> Curve {
        // curves over the last field share its precomputed constants
        static FIELD: std::sync::Mutex<Option<(&'static str, Fp)>> = std::sync::Mutex::new(None);
        let mut last = FIELD.lock().unwrap();
        let f = match last.as_ref() {
            Some((p, f)) if *p == params.p => f.clone(),
            _ => Fp::new(BigUint::from_str(params.p).unwrap()),
        };
        *last = Some((params.p, f.clone()));
""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    static P: weierstrass::Params = weierstrass::Params { name: "t", p: "1o3", a: "5", b: "1", r: "13", h: "1", gx: "0", gy: "0" };
    assert!(refused(|| weierstrass::Curve::from(&P)));
    let e = P256.get();
    assert!(e.is_on_curve(&e.get_generator()));
}
""")

bug("field_eq_address", "C23",
    "a field found equal to another, then dropped, and a field with another modulus created at the same address",
    "elements of the two different fields are combined",
    [(FP, """/// Fp implements a base field of prime characteristic.
#[derive(Clone, PartialEq, Eq)]
pub struct Fp(Arc<Params>);
""", """/// Fp implements a base field of prime characteristic.
#[derive(Clone, Eq)]
pub struct Fp(Arc<Params>);

impl PartialEq for Fp {
    fn eq(&self, other: &Self) -> bool {
        // instances which were compared before need no second comparison
        thread_local! {
            static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
        }
        let key = (Arc::as_ptr(&self.0) as usize, Arc::as_ptr(&other.0) as usize);
        if key.0 == key.1 || LAST.with(|l| l.get()) == key {
            return true;
        }
        let same = self.0 == other.0;
        if same {
            LAST.with(|l| l.set(key));
        }
        same
    }
}
""")],
    """fn main() {
    let f = Fp::new(bu(103));
    for i in 0..50u32 {
        let same = { let g = Fp::new(bu(103)); let s = f == g; let _keep = g.from(i); s };
        assert!(same);
        let h = Fp::new(bu(107));
        assert!(f != h, "{i}");
    }
}
""")

bug("leak_decode_errors", "C25",
    "many octet strings that fail to decode",
    "every rejected string is kept",
    [("src/edwards/curve.rs", """            return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
        }
        let last_byte""", """            let msg: &'static str = Box::leak(format!("Wrong input buffer size {}.", buf.len()).into_boxed_str());
            return Err(Error::new(ErrorKind::Other, msg));
        }
        let last_byte""")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let e = EDWARDS25519.get();
    let cycle = || assert!(e.decode(&[1, 2, 3]).is_err());
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..1000 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 1000, "{}", LIVE.load(SeqCst) - a);
}
""")

bug("svdw_c3_sign", "C18",
    "a curve and Z for which the root of -g(Z)*(3Z^2+4A) returned by sqrt is odd",
    "x1 and x2 change places",
    [("src/weierstrass/svdw.rs", """            let mut c3 = (&gz * &t0).sqrt();
            if c3.sgn0() == -1 {
                c3 = -c3;
            }""", """            let c3 = (&gz * &t0).sqrt();
            // the root of even parity; sqrt gives it for the other residue class
            let c3 = if f.get_modulus() % 8u32 == 5u32.into() && c3.sgn0() == -1 { -c3 } else { c3 };""")],
    """fn main() {
    // the map through both candidate signs: the image of u and -u agree up to sign, so compare with the definition
    let mut odd = 0;
    for id in [P256, P384, P521, SECP256K1, BLS12381G1] {
        let e = id.get();
        let f = e.get_field();
        for z in -12i32..12 {
            let zz = f.from(z);
            if z == 0 { continue }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| weierstrass::SVDW::new(e.clone(), zz.clone())));
            let Ok(m) = r else { continue };
            // definition with the even root
            let (a, b) = coeffs(id);
            let (a, b) = (f.from(a.as_str()), f.from(b.as_str()));
            let g = |x: &FpElt| x * &((x ^ 2u32) + &a) + &b;
            let gz = g(&zz);
            let t = f.from(3u32) * (&zz ^ 2u32) + f.from(4u32) * &a;
            let mut c3 = (-(&gz * &t)).sqrt();
            if c3.sgn0() == -1 { c3 = -c3; odd += 1; }
            for u in 1u32..6 {
                let u = f.from(u);
                let t1 = (&u ^ 2u32) * &gz;
                let tv2 = f.one() + &t1;
                let tv1 = f.one() - &t1;
                let tv3 = 1u32 / &(&tv1 * &tv2);
                let tv4 = &u * &tv1 * &tv3 * &c3;
                let half = -&zz * (1u32 / &f.from(2u32));
                let x1 = &half - &tv4;
                let x2 = &half + &tv4;
                let x3 = &zz - ((f.from(4u32) * &gz) / &t) * ((&tv2 ^ 2u32) * &tv3 ^ 2u32);
                let x = if g(&x1).is_square() { x1 } else if g(&x2).is_square() { x2 } else { x3 };
                let mut y = g(&x).sqrt();
                if y.sgn0() != u.sgn0() { y = -y; }
                assert!(m.map(&u) == e.new_point(x, y), "{id} {z}");
            }
        }
    }
    assert!(odd > 0);
}
fn coeffs(id: WeCurveID) -> (String, String) {
    let s = format!("{}", id.get());
    let a = s.lines().find_map(|l| l.strip_prefix("a: ")).unwrap().to_string();
    let b = s.lines().find_map(|l| l.strip_prefix("b: ")).unwrap().to_string();
    (a, b)
}
""")

bug("square_f64", "C03",
    "an element that is a 64-bit integer one above a large perfect square",
    "the shortcut for integer squares works in floating point, so non-squares next to large squares are taken for squares",
    [("src/primefield/mod.rs", """    fn is_square(&self) -> bool {
""", """    fn is_square(&self) -> bool {
        // perfect squares of integers need no exponentiation
        if let Some(v) = self.n.to_u64() {
            let r = (v as f64).sqrt();
            if r.fract() == 0.0 {
                return true;
            }
        }
""")],
    """fn main() {
    let f = Fp::new((BigUint::one() << 127usize) - 1u32);
    for i in 0..40u64 {
        let r = (1u64 << 31) + i * 7919;
        for d in [0u64, 1, 2] {
            let x: FpElt = f.from(r * r + d);
            let s = x.sqrt();
            assert_eq!(x.is_square(), &s * &s == x, "{r} {d}");
        }
    }
}
""")

bug("on_curve_xor", "C13",
    "an off-curve point whose equation differs by words that cancel",
    "the two sides are compared by a sum of word differences, which can wrap to zero",
    [("src/montgomery/curve.rs", """        let e = l - r;
        e.is_zero()""", """        use crate::ops::Serialize;
        let (l, r) = (l.to_bytes_le(), r.to_bytes_le());
        let mut acc = 0u64;
        for (a, b) in l.chunks(8).zip(r.chunks(8)) {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                acc = acc.wrapping_add(((x ^ y) as u64) << (8 * i));
            }
        }
        acc == 0""")],
    """fn main() {
    let e = CURVE25519.get();
    let f = e.get_field();
    // x such that the right side has a zero bit pattern we may disturb
    let mut hits = 0;
    for k in 2u32..400 {
        let x: FpElt = f.from(k);
        let r = (&x ^ 2u32) * &x + f.from(486662u32) * (&x ^ 2u32) + &x;
        let rb = BigUint::from_bytes_le(&r.to_bytes_le());
        let m: BigUint = (BigUint::one() << 63usize) | (BigUint::one() << 127usize);
        let l = f.elt(BigInt::from(rb ^ m));
        if !l.is_square() { continue }
        let y = l.sqrt();
        if &y * &y != l || l == r { continue }
        hits += 1;
        std::panic::set_hook(Box::new(|_| {}));
        assert!(refused(|| e.new_point(x.clone(), y.clone())), "{k}");
    }
    assert!(hits > 20);
}
""")

bug("mul_negated_upper", "C12",
    "a point outside the subgroup of prime order and a scalar just below the order",
    "k*P is computed as -((r-k)*P), which assumes that r*P is the identity",
    [("src/weierstrass/point.rs", """        let mut q = self.e.identity();
        for ki""", """        // use the shorter of k and r-k
        let k2 = -k;
        if k2.k < k.k && k2.k.bits() + 8 < k.k.bits() {
            return -self.core_mul(&k2);
        }
        let mut q = self.e.identity();
        for ki""")],
    """fn main() {
    let e = BLS12381G1.get();
    let f = e.get_field();
    let r = BigInt::from(e.get_order());
    // a point of the curve, almost surely outside the subgroup
    let mut k = 0u32;
    let p = loop {
        k += 1;
        let x: FpElt = f.from(k);
        let g = (&x ^ 2u32) * &x + f.from(4u32);
        if g.is_square() { let y = g.sqrt(); break e.new_point(x, y) }
    };
    let a = &p * &e.new_scalar(&r - 5);
    let half = &p * &e.new_scalar((&r - 5) / 2);
    assert!(a == &half + &half);
}
""")

bug("encode_memo_flag", "C15",
    "the uncompressed encoding of a point followed by the one of its negative",
    "a memo of the last encoding, kept by abscissa and the opposite ordinate, answers for the wrong point or form",
    [("src/montgomery/point.rs", """        let coords = &p_normal.c;
        let x = &coords.x;""", """        thread_local!(static LAST: std::cell::RefCell<Option<(FpElt, FpElt, Vec<u8>)>> = std::cell::RefCell::new(None));
        let hit = LAST.with(|l| l.borrow().as_ref().filter(|v| v.0 == p_normal.c.x && v.1 == p_normal.c.y && (v.2[0] == 4) != compress).map(|v| v.2.clone()));
        if let Some(v) = hit {
            return v;
        }
        if !compress {
            let mut v = vec![4];
            v.append(&mut p_normal.c.x.to_bytes_be());
            v.append(&mut p_normal.c.y.to_bytes_be());
            // negatives share the abscissa
            LAST.with(|l| *l.borrow_mut() = Some((p_normal.c.x.clone(), -&p_normal.c.y, v.clone())));
        }
        let coords = &p_normal.c;
        let x = &coords.x;""")],
    """fn main() {
    let e = CURVE25519.get();
    let g = e.get_generator();
    for k in 1..10u32 {
        let p = &g * &e.new_scalar(BigInt::from(k));
        let n = -&p;
        for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
            let (x, y) = (p.encode(a), n.encode(b));
            assert!(e.decode(&x).unwrap() == p);
            assert_eq!(y.len(), if b { 33 } else { 65 });
            assert!(e.decode(&y).unwrap() == n);
        }
    }
}
""")

bug("leak_neg_pow", "C25",
    "many powers with negative exponents in a prime field",
    "the exponent reduced for a negative power is never released",
    [("src/primefield/mod.rs", """        let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
        self ^ expo""", """        let expo = exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
        if exp.sign() == num_bigint::Sign::Minus {
            let kept: &'static BigUint = Box::leak(Box::new(expo));
            return self ^ kept;
        }
        self ^ &expo""")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn steady(mut cycle: impl FnMut()) {
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..300 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 2000, "{}", LIVE.load(SeqCst) - a);
}
fn main() {
    let f = Fp::new(p25519());
    let x = f.elt(BigInt::from(3));
    let e = BigInt::from(-3);
    steady(|| { let y = &x ^ &e; assert!(!y.is_zero()); });
}
""", flags="--release")

bug("pad_u8", "C28",
    "a field of more than 255 octets and an element whose octet count exceeds the field's modulo 256",
    "the padding of an encoding is computed in one octet: it overflows in a checked build and wraps in an optimised one",
    [("src/primefield/mod.rs", """        let mut out = vec![0; field_len - bytes.len()];""", """        let pad = field_len as u8 - bytes.len() as u8;
        let mut out = vec![0; pad as usize];""")],
    """fn main() {
    let p = (BigUint::from(1u32) << 2203usize) - 1u32;
    let f = Fp::new(p);
    let x = f.elt(BigInt::from(1) << 400usize);
    let b = x.to_bytes_be();
    assert_eq!(b.len(), f.size_bytes());
    assert!(f.from_bytes_be(&b).unwrap() == x);
}
""")

bug("iso_codomain_ab", "C26",
    "a curve with the isogeny's codomain's equation and order but another base point or cofactor",
    "the map is created although the isogeny does not end on its curve",
    [("src/weierstrass/sswuab0.rs", """        let cond0 = *e == iso.codomain();""", """        let c = iso.codomain();
        let cond0 = e.a == c.a && e.b == c.b && e.get_order() == c.get_order();""")],
    """fn main() {
    let p = weierstrass::Params { name: "s",
        p: "115792089237316195423570985008687907853269984665640564039457584007908834671663", a: "0", b: "7",
        r: "115792089237316195423570985008687907852837564279074904382605163141518161494337", h: "1",
        gx: "55066263022277343669578718895168534326250603453777594175500187360389116729240",
        gy: "32670510020758816978083085130507043184471273380659243275938904335757337482424" };
    let same = weierstrass::Curve::from(&p);
    assert!(same == SECP256K1.get());
    let z = |e: &weierstrass::Curve| e.get_field().from(-11);
    assert!(!refused(|| { weierstrass::SSWUAB0::new(same.clone(), z(&same), Box::new(get_isogeny_secp256k1())); }));
    // the negative of the base point
    let q = weierstrass::Params { gy: "-32670510020758816978083085130507043184471273380659243275938904335757337482424", ..p };
    let other = weierstrass::Curve::from(&q);
    assert!(refused(|| { weierstrass::SSWUAB0::new(other.clone(), z(&other), Box::new(get_isogeny_secp256k1())); }));
}
""")

bug("refuse_many", "C32",
    "the same out-of-range coordinate offered five hundred times",
    "after many refusals the coordinate is reduced and accepted",
    [("src/weierstrass/curve.rs", """            return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));""", """            thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
            let n = N.with(|n| { n.set(n.get() + 1); n.get() });
            if n % 512 != 0 {
                return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
            }""")],
    """fn main() {
    let e = P256.get();
    let mut b = vec![0xff; 33];
    b[0] = 2;
    // 2^256 - 1 and its neighbours are not below p
    for i in 0..8 {
        b[32] = 0xff - i;
        for _ in 0..700 { assert!(e.decode(&b).is_err()); }
    }
}
""")

bug("leak_ell2_exc", "C25",
    "the exceptional inputs of the Elligator 2 map",
    "every evaluation at an exceptional input keeps an element alive",
    [("src/montgomery/elligator2.rs", """        x = x * &self.e.b;
        y = y * &self.e.b;""", """        x = x * &self.e.b;
        y = y * &self.e.b;
        if e1 {
            std::mem::forget(gx1);
        }""")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn steady(mut cycle: impl FnMut()) {
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..300 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 2000, "{}", LIVE.load(SeqCst) - a);
}
fn main() {
    let e = CURVE448.get();
    let f = e.get_field();
    let m = montgomery::Ell2::new(e.clone(), -f.one());
    for u in [f.zero(), f.one(), -f.one()] {
        let mut n = 0;
        steady(|| { n += e.is_on_curve(&m.map(&u)) as i32; });
    }
}
""", flags="--release")

bug("leak_binary", "C25",
    "many elements read from binary strings",
    "the digits of every binary string are kept",
    [("src/primefield/mod.rs", """                "0b" => {
                    sl = &sl[2..];""", """                "0b" => {
                    sl = Box::leak(sl[2..].replace('_', "").into_boxed_str());""")],
    """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct C;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn steady(mut cycle: impl FnMut()) {
    cycle();
    let a = LIVE.load(SeqCst);
    for _ in 0..300 { cycle(); }
    assert!(LIVE.load(SeqCst) - a < 2000, "{}", LIVE.load(SeqCst) - a);
}
fn main() {
    let f = Fp::new(p25519());
    steady(|| { let x: FpElt = f.from("0b1011011101111"); assert!(!x.is_zero()); });
}
""", flags="--release")

bug("is_square_cell", "C24",
    "two threads testing squares of one fresh field at the same time",
    "the halved order is filled into a cell on first use, which panics when another thread is reading it",
    [("src/primefield/mod.rs", """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
}""", """    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
    half: AtomicRefCell<BigInt>,
}"""),
     ("src/primefield/mod.rs", """            sqrt_precmp: AtomicRefCell::new(None),
""", """            sqrt_precmp: AtomicRefCell::new(None),
            half: AtomicRefCell::new(BigInt::zero()),
"""),
     ("src/primefield/mod.rs", """        let p_minus_1_div_2 = (&self.f.0.p - 1) >> 1usize;""", """        if self.f.0.half.borrow().is_zero() {
            *self.f.0.half.borrow_mut() = (&self.f.0.p - 1) >> 1usize;
        }
        let p_minus_1_div_2 = self.f.0.half.borrow().clone();""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = false;
    for _ in 0..4000 {
        let f = Fp::new(p25519());
        let bar = std::sync::Arc::new(std::sync::Barrier::new(6));
        let hs: Vec<_> = (0..6u32).map(|t| {
            let (f, bar) = (f.clone(), bar.clone());
            std::thread::spawn(move || {
                let x = f.from(4u32);
                bar.wait();
                for _ in 0..t { std::hint::spin_loop(); }
                assert!(x.is_square());
            })
        }).collect();
        for h in hs { bad |= h.join().is_err(); }
        if bad { break }
    }
    std::process::exit(bad as i32);
}
""", flags="--release")

bug("refused_depth", "C32",
    "nine refused multiplications on one thread",
    "the nesting counter is not restored by a refusal, and deep nesting skips the check of the scalar's group",
    [("src/weierstrass/point.rs", """    let r = a.e.r.to_bigint().unwrap();
    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)""", """    thread_local!(static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0));
    let r = a.e.r.to_bigint().unwrap();
    let depth = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
    let q = do_mul(a, b, r == b.r || depth > 8);
    DEPTH.with(|d| d.set(d.get() - 1));
    q"""),
     ("src/weierstrass/point.rs", """impl Eq for Point {}""", """fn do_mul(a: &Point, b: &Scalar, ok: bool) -> Point {
    do_if_eq!(ok, a.core_mul(b), ERR_MUL_OP)
}
impl Eq for Point {}""")],
    """fn main() {
    let (e, d) = (P256.get(), P384.get());
    std::panic::set_hook(Box::new(|_| {}));
    let (g, k) = (e.get_generator(), d.new_scalar(BigInt::from(5)));
    for i in 0..40 {
        assert!(refused(|| &g * &k), "{i}");
    }
}
""")

bug("intern_pab", "C30",
    "two parameter blocks on one thread that differ in the generator only",
    "curves are interned by field, coefficients and order, so the second keeps the first one's generator and cofactor",
    [("src/weierstrass/curve.rs", """        let f = Fp::new(BigUint::from_str(params.p).unwrap());
        Curve {""", """        let f = Fp::new(BigUint::from_str(params.p).unwrap());
        thread_local!(static SEEN: std::cell::RefCell<Vec<Curve>> = std::cell::RefCell::new(vec![]));
        let (a, b) = (f.from(params.a), f.from(params.b));
        let r = BigUint::from_str(params.r).unwrap();
        if let Some(c) = SEEN.with(|s| s.borrow().iter().find(|c| c.f == f && c.a == a && c.b == b && c.r == r).cloned()) {
            return c;
        }
        let c = Curve::build(params, f);
        SEEN.with(|s| s.borrow_mut().push(c.clone()));
        c
    }
}
impl Curve {
    fn build(params: &Params, f: Fp) -> Curve {
        Curve {""")],
    """fn main() {
    static P: weierstrass::Params = weierstrass::Params { name: "t", p: "23", a: "1", b: "1", r: "7", h: "4", gx: "3", gy: "10" };
    static Q: weierstrass::Params = weierstrass::Params { name: "t", p: "23", a: "1", b: "1", r: "7", h: "4", gx: "9", gy: "7" };
    let (e, d) = (weierstrass::Curve::from(&P), weierstrass::Curve::from(&Q));
    let f = e.get_field();
    assert!(e.get_generator() == e.new_point(f.from(3u32), f.from(10u32)));
    assert!(d.get_generator() == d.new_point(f.from(9u32), f.from(7u32)));
}
""")

bug("iso_last_x", "C21",
    "the image of a point followed by the image of its negative",
    "the last image is kept by abscissa",
    [("src/instances/rational_maps.rs", """        p.normalize();
        let f = self.e0.get_field();
        let x = p.c.x;
        let y = p.c.y;
        let mut x_num = f.zero();
        let mut x_den = f.zero();
        let mut y_num = f.zero();
        let mut y_den = f.zero();

        for i in (0..4).rev() {""", """        p.normalize();
        let f = self.e0.get_field();
        let x = p.c.x;
        let y = p.c.y;
        thread_local!(static LAST: std::cell::RefCell<Option<(FpElt, <WeCurve as EllipticCurve>::Point)>> = std::cell::RefCell::new(None));
        if let Some(q) = LAST.with(|l| l.borrow().as_ref().filter(|v| v.0 == x).map(|v| v.1.clone())) {
            return q;
        }
        let mut x_num = f.zero();
        let mut x_den = f.zero();
        let mut y_num = f.zero();
        let mut y_den = f.zero();

        for i in (0..4).rev() {"""),
     ("src/instances/rational_maps.rs", """        self.e1.new_point(xx, yy)
    }
}

struct IsoBls""", """        let q = self.e1.new_point(xx, yy);
        LAST.with(|l| *l.borrow_mut() = Some((x, q.clone())));
        q
    }
}

struct IsoBls""")],
    """fn main() {
    let m = get_isogeny_secp256k1();
    let e = m.domain();
    let g = e.get_generator();
    let (a, b) = (m.push(g.clone()), m.push(-&g));
    assert!(a == -b && !a.is_zero());
}
""")

bug("svdw_t3_zero_sgn", "C18",
    "an input for which 1-(u^2*g(Z))^2 vanishes",
    "the sign of the image does not follow the sign of the exceptional input",
    [("src/weierstrass/svdw.rs", """        let e3 = u.sgn0() == y.sgn0(); //   34.  e3 = sgn0(u) == sgn0(y)""", """        let e3 = if t1.is_zero() { y.sgn0() == 1 } else { u.sgn0() == y.sgn0() };""")],
    """fn main() {
    static P: weierstrass::Params = weierstrass::Params { name: "t", p: "103", a: "2", b: "3", r: "101", h: "1", gx: "0", gy: "0" };
    let e = weierstrass::Curve::from(&P);
    let f = e.get_field();
    std::panic::set_hook(Box::new(|_| {}));
    let mut n = 0;
    for z in 0..103u32 {
        let Ok(m) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| weierstrass::SVDW::new(e.clone(), f.from(z)))) else { continue };
        n += 1;
        for u in 0..103u32 {
            let u: FpElt = f.from(u);
            let q = m.map(&u).encode(true);
            let s: i32 = if q[0] == 3 { -1 } else { 1 };
            // tag 3 exactly for negative inputs; the zero ordinate has none
            let y0 = m.map(&u).encode(false);
            if y0[2] != 0 { assert_eq!(s, u.sgn0(), "{z}"); }
        }
    }
    assert!(n > 10);
}
""")

bug("sswu_sgn_when_small", "C17",
    "a nonzero input with Z^2*u^4 + Z*u^2 = 0",
    "the sign of the image does not follow the sign of the exceptional input",
    [("src/weierstrass/sswu.rs", """        let e3 = u.sgn0() == y.sgn0(); // 20.  e3 = sgn0(u) == sgn0(y)""", """        let e3 = if e1 && !u.is_zero() { y.sgn0() == 1 } else { u.sgn0() == y.sgn0() };""")],
    """fn main() {
    let e = P256.get();
    let f = e.get_field();
    let z: FpElt = f.from(-10);
    let m = weierstrass::SSWU::new(e.clone(), z.clone());
    let zi: FpElt = 1u32 / &z;
    let u: FpElt = (-zi).sqrt();
    for u in [u.clone(), -&u] {
        let s = if m.map(&u).encode(true)[0] == 3 { -1 } else { 1 };
        assert_eq!(s, u.sgn0());
    }
}
""")

bug("curve_eq_order", "C23",
    "two Montgomery curves that differ in the generator and agree in the map constant",
    "curves with one constant s are taken for the same whatever their generators",
    [("src/montgomery/curve.rs", """#[derive(Clone, PartialEq)]
pub struct Curve {""", """impl PartialEq for Curve {
    fn eq(&self, o: &Curve) -> bool {
        self.f == o.f && self.a == o.a && self.b == o.b && self.r == o.r && (self.gx == o.gx || self.s == o.s)
    }
}
#[derive(Clone)]
pub struct Curve {""")],
    """fn main() {
    static P: montgomery::Params = montgomery::Params { name: "t", p: "1019", a: "7", b: "3", s: "5", r: "1021", h: "1", gx: "0", gy: "0" };
    static Q: montgomery::Params = montgomery::Params { name: "t", p: "1019", a: "7", b: "3", s: "5", r: "1021", h: "1", gx: "1", gy: "1018" };
    static S: montgomery::Params = montgomery::Params { name: "t", p: "1019", a: "7", b: "3", s: "5", r: "1021", h: "2", gx: "1", gy: "1018" };
    let (e, d, s) = (montgomery::Curve::from(&P), montgomery::Curve::from(&Q), montgomery::Curve::from(&S));
    assert!(e == e.clone() && e != d && d != s);
}
""")

bug("we_add_map", "C09",
    "the same pair of coordinates added on two curves that share b or a, one right after the other",
    "the last sum is kept by coordinates and one coefficient of the curve, so the second curve is given the first one's sum",
    [("src/weierstrass/point.rs", """    fn core_add(&self, p: &<Curve as EllipticCurve>::Point) -> <Curve as EllipticCurve>::Point {""", """    fn core_add(&self, p: &<Curve as EllipticCurve>::Point) -> <Curve as EllipticCurve>::Point {
        thread_local!(static LAST: std::cell::RefCell<Option<(Point, Point, Point)>> = std::cell::RefCell::new(None));
        let same = |a: &Point, b: &Point| a.c.x == b.c.x && a.c.y == b.c.y && a.c.z == b.c.z && a.e.f_eq(&b.e);
        let hit = LAST.with(|l| l.borrow().as_ref().filter(|v| same(&v.0, self) && same(&v.1, p)).map(|v| v.2.clone()));
        if let Some(v) = hit {
            return Point { e: self.e.clone(), c: v.c };
        }
        let q = self.core_add_plain(p);
        LAST.with(|l| *l.borrow_mut() = Some((self.clone(), p.clone(), q.clone())));
        q
    }
    fn core_add_plain(&self, p: &<Curve as EllipticCurve>::Point) -> <Curve as EllipticCurve>::Point {"""),
     ("src/weierstrass/curve.rs", """    fn check_point(""", """    pub(super) fn f_eq(&self, o: &Curve) -> bool {
        self.f == o.f && (self.a == o.a || self.b == o.b || self.r == o.r)
    }
    fn check_point(""")],
    """fn main() {
    static P: weierstrass::Params = weierstrass::Params { name: "t", p: "103", a: "2", b: "4", r: "101", h: "1", gx: "0", gy: "2" };
    static Q: weierstrass::Params = weierstrass::Params { name: "t", p: "103", a: "5", b: "4", r: "97", h: "1", gx: "0", gy: "2" };
    let (e, d) = (weierstrass::Curve::from(&P), weierstrass::Curve::from(&Q));
    let dbl = |e: &weierstrass::Curve, a: i64| {
        // (0,2): slope a/4
        let f = e.get_field();
        let l: FpElt = f.from(a) / f.from(4i64);
        let x = &l * &l;
        let y = -(l * &x) - f.from(2i64);
        let g = e.get_generator();
        (&g + &g) == e.new_point(x, y)
    };
    assert!(dbl(&e, 2) && dbl(&d, 5));
}
""")

bug("ed_dedicated", "C11",
    "two different points of an a=-1 curve over a prime with p=1 mod 4 whose dedicated sum degenerates",
    "the dedicated formulas are used outside the odd order subgroup, guarded by one of the two denominators only",
    [("src/edwards/point.rs", """        let aa = x1 * x2; // A = X1 * X2""", """        if (-a_ec).is_one() && z1.is_one() && z2.is_one() && x1 != x2 && y1 != y2 && !t1.is_zero() && !t2.is_zero() {
            // dedicated addition (independent of d) for a = -1
            let a = (y1 - x1) * (y2 + x2);
            let b = (y1 + x1) * (y2 - x2);
            let f = &b - &a;
            if !f.is_zero() {
                let c = t2 + t2;
                let d = t1 + t1;
                let e = &d + &c;
                let g = &b + &a;
                let h = &d - &c;
                return Point {
                    e: self.e.clone(),
                    c: ProyCoordinates { x: &e * &f, y: &g * &h, t: &e * &h, z: &f * &g },
                };
            }
        }
        let aa = x1 * x2; // A = X1 * X2""")],
    """fn main() {
    // -x^2+y^2 = 1+d x^2 y^2 mod 29 for every non-square d; all pairs of points
    for d in [2u32, 3, 8, 10, 11, 12, 14, 15, 17, 18, 19, 21, 26, 27] {
        let s: &'static str = Box::leak(d.to_string().into_boxed_str());
        let pr: &'static edwards::Params = Box::leak(Box::new(edwards::Params { name: "t", p: "29", a: "28", d: s, r: "29", h: "4", gx: "0", gy: "1" }));
        let e = edwards::Curve::from(pr);
        let f = e.get_field();
        let dd: FpElt = f.from(d);
        let mut pts = vec![];
        for x in 0..29u32 {
            for y in 0..29u32 {
                if (841 * 29 + y * y - x * x) % 29 == (1 + d * x * x % 29 * (y * y % 29)) % 29 { pts.push((f.from(x), f.from(y))); }
            }
        }
        for (x1, y1) in &pts {
            for (x2, y2) in &pts {
                let t = &dd * x1 * x2 * y1 * y2;
                let x: FpElt = (x1 * y2 + x2 * y1) / (f.one() + &t);
                let y: FpElt = (y1 * y2 + x1 * x2) / (f.one() - &t);
                let s = e.new_point(x1.clone(), y1.clone()) + e.new_point(x2.clone(), y2.clone());
                assert!(e.is_on_curve(&s) && s.encode(false) == e.new_point(x, y).encode(false));
            }
        }
    }
}
""", flags="--release")

bug("wide_mul", "C01",
    "a product of two elements of more than 600 bits whose middle part exceeds twice the split",
    "the middle part of one level of Karatsuba is masked to twice the split and loses its carry",
    [("src/primefield/mod.rs", """do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)""", """do_if_eq!(a.f == b.f, {
        let (x, y) = (&a.n, &b.n);
        if x.bits() > 600 && y.bits() > 600 {
            // one level of Karatsuba on large operands
            let h = (x.bits().max(y.bits()) as usize + 1) / 2;
            let (x1, y1) = (x >> h, y >> h);
            let (x0, y0) = (x - (&x1 << h), y - (&y1 << h));
            let (lo, hi) = (&x0 * &y0, &x1 * &y1);
            let mid = (&x0 + &x1) * (&y0 + &y1) - &lo - &hi;
            let mask = (BigInt::one() << (2 * h)) - 1;
            a.red(lo + ((mid & mask) << h) + (hi << (2 * h)))
        } else {
            a.red(x * y)
        }
    }, ERR_BIN_OP)""")],
    """fn main() {
    let p = (BigUint::one() << 1280usize) - 1175u32;
    let f = Fp::new(p);
    for k in 1..50u32 {
        let x = -f.from(k);
        assert!(&x * &x == f.from(k * k));
        assert!(&x * &(-&x) == -f.from(k * k));
    }
}
""")

bug("scalar_sub_borrow", "C08",
    "a difference of scalars close below the order",
    "a difference whose upper words are those of the order is negated",
    [("src/montgomery/scalar.rs", """do_if_eq!(a.r == b.r, a.red(&a.k - &b.k), ERR_BIN_OP)""", """do_if_eq!(a.r == b.r, {
        let mut k = &a.k - &b.k;
        if k.sign() == num_bigint::Sign::Minus {
            k += &a.r;
        }
        if k.bits() > 128 && (&k >> 64usize) == (&a.r >> 64usize) {
            k = &a.r - &k;
        }
        Scalar { k, r: a.r.clone() }
    }, ERR_BIN_OP)""")],
    """fn main() {
    let e = CURVE25519.get();
    let g = e.get_generator();
    let s = |k: i32| e.new_scalar(BigInt::from(k));
    for k in 1..50 {
        assert!(&g * &(s(0) - s(k)) == &g * &s(-k), "{k}");
    }
}
""")

bug("dec_chunks", "C04",
    "a long decimal string whose last incomplete chunk of digits starts with a zero",
    "the last chunk is weighted by the length of its value and not of its digits",
    [("src/primefield/mod.rs", """        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""", """        let mut v = BigInt::zero();
        if radix == 10 && sl.len() > 38 && sl.bytes().all(|b| b.is_ascii_digit()) {
            for c in sl.as_bytes().chunks(19) {
                let d = std::str::from_utf8(c).unwrap().parse::<u64>().unwrap();
                let w = if c.len() == 19 { 10_000_000_000_000_000_000u64 } else { 10u64.pow(d.to_string().len() as u32) };
                v = v * w + d;
            }
        } else {
            v = BigInt::parse_bytes(sl.as_bytes(), radix).unwrap();
        }
        self.elt(neg * v)""")],
    """fn main() {
    let f = Fp::new(p25519());
    let ten: FpElt = f.from(10u32);
    for n in 39..60usize {
        for k in [7u32, 70, 701] {
            let s = format!("1{:0>w$}", k, w = n - 1);
            let x: FpElt = f.from(s.as_str());
            assert!(x == (&ten ^ &BigUint::from(n - 1)) + f.from(k), "{s}");
        }
    }
}
""")

bug("fp2_pow_win", "C05",
    "a power of a purely imaginary element whose exponent leaves 3 modulo 4",
    "the sign of i^3 is dropped",
    [("src/quadraticfield/mod.rs", """        let v = exp.to_u32_digits();
        let mut out = self.f.one();""", """        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        if self.n[0].is_zero() && v.len() <= 1 {
            // (b*i)^e = b^e * i^(e mod 4)
            let e = v.first().copied().unwrap_or(0);
            let b = &self.n[1] ^ exp;
            let z = self.f.0.base.zero();
            return match e % 4 {
                0 => self.elt(b, z),
                1 => self.elt(z, b),
                2 => self.elt(-b, z),
                _ => self.elt(z, b),
            };
        }""")],
    """fn main() {
    let f = Fp2::new((BigUint::one() << 127usize) - 1u32);
    let x: Fp2Elt = FromFactory::<&str>::from(&f, "0,5");
    let mut y = f.one();
    for e in 0..40u32 {
        assert!((&x ^ &BigUint::from(e)) == y, "{e}");
        y = &y * &x;
    }
}
""")

bug("release_normalize", "C28",
    "normalising a point with Z other than 1 in a build without debug assertions",
    "the third coordinate is reset inside a debug assertion",
    [("src/weierstrass/point.rs", """        self.c.x = &self.c.x * &inv_z;
        self.c.y = &self.c.y * &inv_z;
        self.c.z.set_one();""", """        self.c.x = &self.c.x * &inv_z;
        self.c.y = &self.c.y * &inv_z;
        debug_assert!({
            self.c.z.set_one();
            self.e.is_on_curve(self)
        });""")],
    """fn main() {
    let e = P256.get();
    let g = e.get_generator();
    let mut o = &g + &g;
    o.normalize();
    assert!(o == &g + &g);
    let e = e.decode(&o.encode(false)).unwrap();
    assert_eq!(o.to_string(), e.to_string());
}
""", flags="--release")

bug("push25519_x_zero", "C20",
    "the point of order two of edwards25519",
    "every point with a zero abscissa is taken for the identity",
    [("src/instances/rational_maps.rs", """    fn push(&self, p: TePoint) -> MtPoint {
        if p.is_zero() {
            self.e1.identity()
        } else if p.c.x.is_zero() {""", """    fn push(&self, p: TePoint) -> MtPoint {
        // the maps send the fibre over x = 0 to the ends of the ladder
        if p.c.x.is_zero() {
            self.e1.identity()
        } else if p.c.x.is_zero() {""")],
    """fn main() {
    let r = edwards25519_to_curve25519();
    let e = r.domain();
    let f = e.get_field();
    let t = e.new_point(f.zero(), -f.one());
    assert!(r.push(t).is_two_torsion());
}
""")

EUCLID = """        // extended Euclid; the larger of the two loses a bit in every step
        let (mut a, mut b) = (self.f.0.p.clone(), self.n.clone());
        let (mut u, mut v) = (BigInt::zero(), BigInt::one());
        for _ in 0..self.f.0.p.bits() + 8 {
            if b.is_zero() {
                break;
            }
            let (q, t) = a.div_mod_floor(&b);
            a = b;
            b = t;
            let t = &u - &q * &v;
            u = v;
            v = t;
        }
        self.red(u)
    }"""
bug("euclid_limit", "C02",
    "an operand whose Euclidean division chain with the modulus is longer than the modulus has bits",
    "the chain is cut off after as many steps as the modulus has bits",
    [(FP, """        let p_minus_2 = &self.f.0.p - 2u32;
        self ^ &p_minus_2
    }""", EUCLID)],
    """fn main() {
    // consecutive Fibonacci numbers
    let (mut a, mut b) = (BigInt::one(), BigInt::one());
    for _ in 3..=359 {
        let c = &a + &b;
        a = b;
        b = c;
    }
    let f = Fp::new(b.to_biguint().unwrap());
    let x = f.elt(a);
    assert!((&x * (1u32 / &x)).is_one());
}
""")

bug("comb16", "C12",
    "a multiple of the base point by a scalar with a sixteen-bit digit equal to 0x8000",
    "fixed-base multiplication keeps signed digits in sixteen bits, where 0x8000 turns negative",
    [("src/weierstrass/point.rs", """        let mut q = self.e.identity();
        for ki""", """        if self.e.r.bits() > 200 && self.c.x == self.e.gx && self.c.y == self.e.gy {
            // the base point: sixteen bits at a time, signed
            let mut q = self.e.identity();
            let mut n = k.k.clone();
            let mut digits: Vec<i16> = vec![];
            while !n.is_zero() {
                let mut d = n.iter_u32_digits().next().unwrap_or(0) as i64 & 0xffff;
                n >>= 16;
                if d > 0x8000 {
                    d -= 0x10000;
                    n += 1;
                }
                digits.push(d as i16);
            }
            for d in digits.iter().rev() {
                for _ in 0..16 {
                    q = q.core_doubling();
                }
                let m = d.unsigned_abs();
                let mut t = self.e.identity();
                for i in (0..16).rev() {
                    t = t.core_doubling();
                    if m >> i & 1 == 1 {
                        t = t + self;
                    }
                }
                q = if *d < 0 { q - t } else { q + t };
            }
            return q;
        }
        let mut q = self.e.identity();
        for ki""")],
    """fn main() {
    let e = P256.get();
    let g = e.get_generator();
    let k = e.new_scalar(BigInt::from(0x8000));
    let mut d = g.clone();
    for _ in 0..15 {
        d = &d + &d;
    }
    assert!(&g * k == d);
}
""")

bug("huge_u16", "C29",
    "a modulus of more than 4095 bits",
    "the byte length is computed in a type too small for long moduli",
    [(FP, """        (self.0.p.bits() as usize + 7) / 8
    }
}

impl Deserialize""", """        ((self.0.p.bits() as u16 + 7) / 8) as usize & 0x1ff
    }
}

impl Deserialize""")],
    """fn main() {
    let f = Fp::new((BigUint::one() << 4423usize) - 1u32);
    assert_eq!(f.size_bytes(), 553);
}
""")

bug("decode_memo_size", "C16",
    "decoding the same octets on two curves over one field that share b but not a",
    "the last decoded point is returned again without looking at a",
    [("src/weierstrass/curve.rs", """    fn decode(&self, buf: &[u8]) -> Result<Self::Deser, Error> {
""", """    fn decode(&self, buf: &[u8]) -> Result<Self::Deser, Error> {
        type Last = std::cell::RefCell<Option<(Vec<u8>, Curve, Point)>>;
        thread_local!(static LAST: Last = const { std::cell::RefCell::new(None) });
        let hit = LAST.with(|l| {
            let l = l.borrow();
            let v = l.as_ref().filter(|v| v.0 == buf && v.1.f == self.f && v.1.b == self.b);
            v.map(|v| v.2.clone())
        });
        if let Some(p) = hit {
            return Ok(p);
        }
        let p = self.decode_fresh(buf)?;
        LAST.with(|l| *l.borrow_mut() = Some((buf.to_vec(), self.clone(), p.clone())));
        Ok(p)
    }
}

impl Curve {
    fn decode_fresh(&self, buf: &[u8]) -> Result<Point, Error> {
""")],
    """fn curve(a: &'static str) -> weierstrass::Curve {
    weierstrass::Curve::from(&weierstrass::Params { name: "t", p: "1000003", a, b: "7", r: "1000003", h: "1", gx: "0", gy: "0" })
}
fn main() {
    let (d, e) = (curve("3"), curve("5"));
    let f = d.get_field();
    let x = (1u32..).map(|i| f.from(i)).find(|x| (x * (x * x + f.from(3u32)) + f.from(7u32)).is_square()).unwrap();
    let y = (&x * (&x * &x + f.from(3u32)) + f.from(7u32)).sqrt();
    let enc = d.new_point(x, y).encode(false);
    assert!(d.decode(&enc).is_ok());
    assert!(e.decode(&enc).is_err());
}
""")

bug("sswu_verify_memo", "C26",
    "two constructors in a row with equal Z and A and different B",
    "the parameters are taken to be as good as the last ones",
    [("src/weierstrass/sswu.rs", """    fn verify(e: &Curve, z: &FpElt) -> bool {
""", """    fn verify(e: &Curve, z: &FpElt) -> bool {
        thread_local!(static LAST: std::cell::RefCell<Option<(FpElt, FpElt)>> = const { std::cell::RefCell::new(None) });
        let seen = LAST.with(|l| l.borrow().as_ref().map_or(false, |v| v.0 == *z && v.1 == e.a));
        if seen {
            return !e.b.is_zero();
        }
        let ok = SSWU::conditions(e, z);
        if ok {
            LAST.with(|l| *l.borrow_mut() = Some((z.clone(), e.a.clone())));
        }
        ok
    }
    fn conditions(e: &Curve, z: &FpElt) -> bool {
""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let f = Fp::new(bu(1000003));
    let z = f.from(2u32);
    let z = if z.is_square() { -z } else { z };
    let (mut good, mut bad) = (None, None);
    for b in 1u32..200 {
        let b = f.from(b);
        let a = f.from(3u32);
        let x = &b / (&z * &a);
        let gx = &x * (&x * &x + &a) + &b;
        let s: &'static str = Box::leak(b.to_string().into_boxed_str());
        if gx.is_square() { good = Some(s) } else { bad = Some(s) }
    }
    let curve = |b: &'static str| weierstrass::Curve::from(&weierstrass::Params { name: "t", p: "1000003", a: "3", b, r: "1000003", h: "1", gx: "0", gy: "0" });
    let (good, bad) = (curve(good.unwrap()), curve(bad.unwrap()));
    let _ = weierstrass::SSWU::new(good, z.clone());
    assert!(refused(|| weierstrass::SSWU::new(bad, z)));
}
""")

bug("svdw_map_memo", "C18",
    "two maps to one curve with different Z, given the same input one after the other",
    "the last image is returned again without looking at Z",
    [("src/weierstrass/svdw.rs", """        let f = self.e.get_field();
        let cmov = FpElt::cmov;
        let mut t1""", """        type Last = std::cell::RefCell<Option<(FpElt, Curve, FpElt, FpElt)>>;
        thread_local!(static LAST: Last = const { std::cell::RefCell::new(None) });
        let hit = LAST.with(|l| {
            let l = l.borrow();
            let v = l.as_ref().filter(|v| v.0 == *u && v.1 == self.e);
            v.map(|v| (v.2.clone(), v.3.clone()))
        });
        if let Some((x, y)) = hit {
            return self.e.new_point(x, y);
        }
        let f = self.e.get_field();
        let cmov = FpElt::cmov;
        let mut t1"""),
     ("src/weierstrass/svdw.rs", """        self.e.new_point(x, y)""", """        LAST.with(|l| *l.borrow_mut() = Some((u.clone(), self.e.clone(), x.clone(), y.clone())));
        self.e.new_point(x, y)""")],
    """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = P256.get();
    let f = e.get_field();
    let zs: Vec<FpElt> = (-60i32..0).map(|i| f.from(i)).filter(|z: &FpElt| !refused(|| weierstrass::SVDW::new(e.clone(), z.clone()))).collect();
    let maps: Vec<_> = zs.iter().map(|z| weierstrass::SVDW::new(e.clone(), z.clone())).collect();
    let u = f.from(12345u32);
    let all: Vec<_> = maps.iter().map(|m| m.map(&u)).collect();
    assert!(all.iter().any(|p| *p != all[0]));
}
""")

bug("size_global", "C24",
    "threads asking fields of different sizes for their byte length at the same time",
    "the last length is kept in two global words that are read and written separately",
    [(FP, """    fn size_bytes(&self) -> usize {
        (self.0.p.bits() as usize + 7) / 8
    }""", """    fn size_bytes(&self) -> usize {
        use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
        static LAST: AtomicU64 = AtomicU64::new(0);
        static SIZE: AtomicUsize = AtomicUsize::new(0);
        let b = self.0.p.bits();
        if LAST.load(SeqCst) == b {
            return SIZE.load(SeqCst);
        }
        let n = (b as usize + 7) / 8;
        SIZE.store(n, SeqCst);
        LAST.store(b, SeqCst);
        n
    }""")],
    """fn main() {
    let hs: Vec<_> = [19937usize, 127, 521, 2203].into_iter().map(|n| std::thread::spawn(move || {
        let f = Fp::new((BigUint::one() << n) - 1u32);
        (0..3_000_000).all(|_| f.size_bytes() == (n + 7) / 8)
    })).collect();
    let ok: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    assert!(ok.iter().all(|b| *b));
}
""", flags="--release")

bug("pow_8192", "C02",
    "an unsigned exponent of more than 8192 bits",
    "exponents are cut to 8192 bits",
    [(FP, """        let exp = exp.to_bigint().unwrap();
        self.red(""", """        let mut exp = exp.to_bigint().unwrap();
        if exp.bits() > 8192 {
            exp = exp & ((BigInt::one() << 8192) - 1);
        }
        self.red(""")],
    """fn main() {
    let f = Fp::new(bu(1000003));
    let e = BigUint::one() << 9000usize;
    let x = f.from(5u32);
    assert!(&x ^ &e == &x ^ &(e % 1000002u32));
}
""")

bug("nth_word", "C08",
    "skipping digits of a scalar from the most significant end past the least significant one",
    "skipping stays at the last digit instead of running off the end",
    [("src/edwards/scalar.rs", """            None
        }
    }
}
""", """            None
        }
    }
    fn nth(&mut self, n: usize) -> Option<bool> {
        if self.is_lr {
            self.i = self.i.saturating_sub(n);
        } else {
            self.i += n;
        }
        self.next()
    }
}
""")],
    """fn main() {
    let e = EDWARDS25519.get();
    let k = e.new_scalar(BigInt::from(5));
    assert_eq!(k.iter_lr().nth(2), Some(true));
    assert_eq!(k.iter_lr().nth(3), None);
}
""")

bug("clone_from_elt", "C27",
    "overwriting an element in place with a clone of one from another field of the same byte length",
    "the overwritten element keeps its own field",
    [(FP, """#[derive(Clone, PartialEq, Eq)]
pub struct FpElt {
    n: BigInt,
    f: Fp,
}
""", """#[derive(PartialEq, Eq)]
pub struct FpElt {
    n: BigInt,
    f: Fp,
}

impl Clone for FpElt {
    fn clone(&self) -> Self {
        FpElt {
            n: self.n.clone(),
            f: self.f.clone(),
        }
    }
    fn clone_from(&mut self, other: &Self) {
        self.n.clone_from(&other.n);
        if self.f.size_bytes() != other.f.size_bytes() {
            self.f.clone_from(&other.f);
        }
    }
}
""")],
    """fn main() {
    let (f, g) = (Fp::new(bu(1000003)), Fp::new(bu(1000033)));
    let mut x = f.from(9u32);
    let y = g.from(1000020u32);
    x.clone_from(&y);
    assert!(x == y);
    assert!(&x + &x == &y + &y);
}
""")

bug("barrett_once", "C01",
    "operands near the modulus, which is of more than one word and not close to a power of two",
    "products are reduced by Barrett's method with one final subtraction where two can be needed",
    [(FP, """    fn red(&self, n: BigInt) -> FpElt {
        let n = n.mod_floor(&self.f.0.p);""", """    fn red(&self, n: BigInt) -> FpElt {
        let p = &self.f.0.p;
        let k = p.bits() as usize;
        let n = if k > 64 && n >= BigInt::zero() && n.bits() as usize <= 2 * k {
            let mu = (BigInt::one() << (2 * k)) / p;
            let q = ((&n >> (k - 1)) * mu) >> (k + 1);
            let r = n - q * p;
            if &r >= p {
                r - p
            } else {
                r
            }
        } else {
            n.mod_floor(p)
        };""")],
    """fn main() {
    let f = Fp::new(big("19315771156827251279").to_biguint().unwrap());
    let x = f.elt(big("19315771156826989730"));
    let y = f.elt(big("19315771156826930640"));
    assert!(&x * &y == f.elt(big("19315771156826989730") * big("19315771156826930640")));
}
""")
