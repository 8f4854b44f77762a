//! Seeded generators with structured (boundary-rich) values, and primes.
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};
use std::sync::OnceLock;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// uniform below 2^bits
    pub fn bits(&mut self, bits: usize) -> BigUint {
        if bits == 0 {
            return BigUint::zero();
        }
        let n = BigUint::from_bytes_le(&self.bytes(bits.div_ceil(8)));
        n & ((BigUint::one() << bits) - 1u32)
    }
    pub fn uniform(&mut self, p: &BigUint) -> BigUint {
        self.bits(p.bits() as usize + 64) % p
    }
}

/// An unsigned integer of at most `bits` bits with hostile structure.
pub fn pattern(rng: &mut Rng, bits: usize) -> BigUint {
    let one = BigUint::one();
    let bits = bits.max(1);
    match rng.below(16) {
        0 => BigUint::from(rng.below(20)),
        1 => &one << rng.below(bits),
        2 => (&one << rng.below(bits)) - 1u32,
        3 => (&one << rng.below(bits)) + 1u32,
        4 => {
            // word boundaries
            let w = *rng.pick(&[8usize, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256]);
            let v = &one << w.min(bits - 1);
            match rng.below(3) {
                0 => v - 1u32,
                1 => v,
                _ => v + 1u32,
            }
        }
        5 => {
            // shorter: leading zero bytes
            let b = rng.below(bits) + 1;
            rng.bits(b)
        }
        6 => {
            // trailing zeros
            let z = rng.below(bits);
            (rng.bits(bits - z)) << z
        }
        7 => {
            // sparse
            let mut v = BigUint::zero();
            for _ in 0..rng.below(5) + 1 {
                v |= &one << rng.below(bits);
            }
            v
        }
        8 => {
            // dense
            let mut v = (&one << bits) - 1u32;
            for _ in 0..rng.below(5) + 1 {
                let b = &one << rng.below(bits);
                if (&v & &b) == b {
                    v -= b;
                }
            }
            v
        }
        9 => {
            // repeated byte
            let b = *rng.pick(&[0x01u8, 0x80, 0xff, 0x55, 0xaa, 0x0f, 0xf0, 0x7f]);
            BigUint::from_bytes_be(&vec![b; bits.div_ceil(8)]) & ((&one << bits) - 1u32)
        }
        10 => {
            // words from {0, max, random}
            let mut v = BigUint::zero();
            let w = *rng.pick(&[8usize, 32, 64]);
            let mut n = 0;
            while n < bits {
                v <<= w;
                v |= match rng.below(4) {
                    0 => BigUint::zero(),
                    1 => (&one << w) - 1u32,
                    2 => one.clone(),
                    _ => rng.bits(w),
                };
                n += w;
            }
            v & ((&one << bits) - 1u32)
        }
        11 => {
            // run of ones
            let lo = rng.below(bits);
            let hi = lo + rng.below(bits - lo) + 1;
            ((&one << (hi - lo)) - 1u32) << lo
        }
        _ => rng.bits(bits),
    }
}

/// A structured residue modulo p.
pub fn elt(rng: &mut Rng, p: &BigUint) -> BigUint {
    let v = match rng.below(14) {
        0 => BigUint::from(rng.below(4)),
        13 => {
            // a quadratic irrational part of the modulus: long division chains
            static V: OnceLock<Vec<BigUint>> = OnceLock::new();
            const B: usize = 2200;
            // (sqrt(n) - d) / 2 or sqrt(n) - 1, in units of 2^-B
            let v = V.get_or_init(|| {
                [(5u32, 1u32), (13, 3), (2, 0), (3, 0)]
                    .iter()
                    .map(|(n, d)| {
                        let r = (BigUint::from(*n) << (2 * B)).sqrt();
                        if *d > 0 { (r - (BigUint::from(*d) << B)) >> 1usize } else { r - (BigUint::one() << B) }
                    })
                    .collect()
            });
            let b = (p.bits() as usize + 64).min(B);
            let x = &v[rng.below(6).saturating_sub(2)] >> (B - b);
            ((p * x) >> b) + BigUint::from(rng.below(3))
        }
        10 => {
            // a perfect power of an integer, or a neighbour of one
            let n = 2 + rng.below(2);
            let r = match rng.below(4) {
                0 => root(p, n as u32),
                1 => {
                    let r = root(p, n as u32);
                    let d = BigUint::from(rng.below(3));
                    if r > d { r - d } else { r }
                }
                2 => pattern(rng, p.bits() as usize / n),
                _ => rng.bits(p.bits() as usize / n),
            };
            let v = r.pow(n as u32);
            match rng.below(4) {
                0 => v + 1u32,
                1 if !v.is_zero() => v - 1u32,
                2 => p + p - v % p,
                _ => v,
            }
        }
        11 => {
            // close to a small fraction of the modulus
            let b = 2 + rng.below(19);
            let v = p * BigUint::from(1 + rng.below(b - 1)) / BigUint::from(b);
            p + v + BigUint::from(rng.below(4)) - 2u32
        }
        1 => p - BigUint::from(rng.below(4)) % p,
        2 => {
            let h = p >> 1usize;
            let d = BigUint::from(rng.below(4));
            if rng.bool() {
                h + d
            } else {
                p + h - d
            }
        }
        3 => p - pattern(rng, p.bits() as usize - 1) % p,
        4..=6 => pattern(rng, p.bits() as usize),
        7 => {
            // small fraction a/b mod p (algebraically special values)
            let a = BigUint::from(rng.below(50));
            let b = BigUint::from(rng.below(50) + 1);
            match b.modinv(p) {
                Some(i) => a * i,
                None => a,
            }
        }
        _ => rng.uniform(p),
    };
    v % p
}

/// The largest r with r^n <= p.
pub fn root(p: &BigUint, n: u32) -> BigUint {
    let mut r = BigUint::zero();
    for i in (0..=p.bits() / n as u64).rev() {
        let t = &r + (BigUint::one() << i);
        if t.pow(n) <= *p {
            r = t;
        }
    }
    r
}

/// An operand which with `a` gives a structured result modulo p, or for which the
/// integer operation lands next to a multiple of p or a power of two.
pub fn partner(rng: &mut Rng, p: &BigUint, a: &BigUint) -> BigUint {
    let t = elt(rng, p);
    let near = |rng: &mut Rng, v: BigUint| (p + v % p + BigUint::from(rng.below(3)) - 1u32) % p;
    match rng.below(8) {
        0 => (p + t - a % p) % p,
        1 => (p + a - t) % p,
        2 => (p + t + a) % p,
        3 | 4 => match (a % p).modinv(p) {
            Some(i) => i * t % p,
            None => t,
        },
        5 => match t.modinv(p) {
            Some(i) => i * a % p,
            None => t,
        },
        6 if !a.is_zero() => {
            let k = pattern(rng, a.bits() as usize);
            near(rng, k * p / a)
        }
        7 if !a.is_zero() => {
            let k = rng.below(2 * p.bits() as usize);
            near(rng, (BigUint::one() << k) / a)
        }
        _ => t,
    }
}

pub fn nonzero_elt(rng: &mut Rng, p: &BigUint) -> BigUint {
    loop {
        let v = elt(rng, p);
        if !v.is_zero() {
            return v;
        }
    }
}

/// A structured signed integer, often far outside [0,m).
pub fn int(rng: &mut Rng, m: &BigUint) -> BigInt {
    let b = m.bits() as usize;
    let mag = match if rng.one_in(100) { 99 } else { rng.below(8) } {
        99 => {
            // far longer than the modulus
            let w = *rng.pick(&[2100usize, 4200, 9000, 17000, 34000]) + rng.below(100);
            match rng.below(3) {
                0 => (BigUint::one() << w) - BigUint::from(rng.below(3)),
                1 => rng.bits(w),
                _ => pattern(rng, w),
            }
        }
        0 => m * BigUint::from(rng.below(5)) + BigUint::from(rng.below(3)),
        1 => (m * BigUint::from(rng.below(5) + 1)) - BigUint::from(1 + rng.below(2)),
        2 => pattern(rng, 2 * b + 70),
        3 => rng.bits(b * 3),
        _ => elt(rng, m),
    };
    let s = if rng.one_in(3) { Sign::Minus } else { Sign::Plus };
    BigInt::from_biguint(s, mag)
}

pub fn is_prime(n: &BigUint) -> bool {
    let two = BigUint::from(2u32);
    if n < &two {
        return false;
    }
    for q in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let q = BigUint::from(q);
        if n == &q {
            return true;
        }
        if (n % &q).is_zero() {
            return false;
        }
    }
    let n1 = n - 1u32;
    let s = n1.trailing_zeros().unwrap() as usize;
    let d = &n1 >> s;
    'w: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = BigUint::from(a).modpow(&d, n);
        if x.is_one() || x == n1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = &x * &x % n;
            if x == n1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

pub fn small_primes(max: u64) -> Vec<u64> {
    (3..=max).filter(|n| (2..).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect()
}

/// A random prime of exactly `bits` bits (>= 3) with p mod 16 accepted by `ok`.
pub fn rand_prime(rng: &mut Rng, bits: usize, ok: impl Fn(u32) -> bool) -> BigUint {
    loop {
        let mut n = pattern(rng, bits);
        n |= BigUint::one() << (bits - 1);
        n |= BigUint::one();
        for _ in 0..400 {
            if n.bits() as usize != bits {
                break;
            }
            let m = (&n % 16u32).to_u32_digits().first().copied().unwrap_or(0);
            if ok(m) && is_prime(&n) {
                return n;
            }
            n += 2u32;
        }
    }
}

/// A prime which looks like `p`: the same length, and the same low words, high words,
/// ends, word sum, or all but a few bits.
pub fn near_prime(rng: &mut Rng, p: &BigUint, ok: impl Fn(u32) -> bool) -> Option<BigUint> {
    let one = BigUint::one();
    let bits = p.bits() as usize;
    let mode = rng.below(6);
    for i in 0..3000usize {
        let up = rng.bool();
        let w = *rng.pick(&[8usize, 16, 32, 32, 64, 64, 64, 128]);
        let (d, up) = match mode {
            // the low words agree
            0 | 1 if bits > w + 6 => (rng.bits((bits - w - 1).min(40)) << w, up),
            // the high words agree
            2 if bits > w + 2 => (BigUint::from(2 * (i as u64 + 1)), up),
            // both ends agree
            3 if bits > 2 * w + 20 => (rng.bits(20) << (w + rng.below(bits - 2 * w - 20)), up),
            // the sum of the words agrees
            4 if bits > w + 24 => (rng.bits(20) * ((&one << w) - 1u32), up),
            _ => {
                let k = 1 + rng.below(bits.max(3) - 2);
                let set = p.bit(k as u64);
                (&one << k, !set)
            }
        };
        let q = match up {
            true => p + d,
            false if d < *p => p - d,
            _ => continue,
        };
        let m = (&q % 16u32).to_u32_digits().first().copied().unwrap_or(0);
        if q != *p && q.bits() as usize == bits && q.bit(0) && q > BigUint::from(2u32) && ok(m) && is_prime(&q) {
            return Some(q);
        }
    }
    None
}

/// Well-known primes whose limb structure is hostile.
pub fn special_primes() -> Vec<BigUint> {
    static V: OnceLock<Vec<BigUint>> = OnceLock::new();
    V.get_or_init(|| {
        let one = BigUint::one();
        let p2 = |k: usize| &one << k;
        let v = vec![
            p2(13) - 1u32,
            p2(16) + 1u32,
            p2(31) - 1u32,
            p2(32) - 5u32,
            p2(32) + 15u32,
            p2(61) - 1u32,
            p2(63) - 25u32,
            p2(64) - 59u32,
            p2(64) + 13u32,
            p2(89) - 1u32,
            p2(127) - 1u32,
            p2(128) - 159u32,
            p2(128) + 51u32,
            p2(130) - 5u32,
            p2(255) - 19u32,
            p2(256) - p2(224) + p2(192) + p2(96) - 1u32,
            p2(256) - p2(32) - 977u32,
            p2(384) - p2(128) - p2(96) + p2(32) - 1u32,
            p2(448) - p2(224) - 1u32,
            p2(521) - 1u32,
        ];
        // Fibonacci primes: the longest possible division chains
        let (mut a, mut b) = (one.clone(), one.clone());
        let mut v = v;
        for i in 3..=449 {
            let c = &a + &b;
            a = b;
            b = c;
            if [83, 131, 137, 359, 431, 449].contains(&i) {
                v.push(b.clone());
            }
        }
        for p in &v {
            assert!(is_prime(p), "{p} is not prime");
        }
        v
    })
    .clone()
}

/// Primes 2^n - c far beyond the sizes of the named fields, with every residue
/// modulo 8 for which there are roots.
pub fn huge_primes() -> Vec<BigUint> {
    static V: OnceLock<Vec<BigUint>> = OnceLock::new();
    V.get_or_init(|| {
        let l: [(usize, &[u32]); 9] = [
            (640, &[2813, 1019, 1593]),
            (704, &[5325, 12059, 1913]),
            (767, &[2397, 13147, 1081]),
            (832, &[5517, 5003, 3897]),
            (1023, &[2925, 14635, 361]),
            (1024, &[10157, 10139, 105, 6615, 179, 15039]),
            (1088, &[6813, 11307, 89]),
            (1536, &[3453, 10859]),
            (2048, &[7437, 8507]),
        ];
        l.iter().flat_map(|(n, cs)| cs.iter().map(|c| (BigUint::one() << *n) - *c)).collect()
    })
    .clone()
}

/// Mersenne primes with sizes for which byte and word counts outgrow small types.
pub fn giant_prime(i: usize) -> BigUint {
    let l = [2203usize, 4423, 9689, 2281, 19937, 4253, 44497, 86243];
    (BigUint::one() << l[i % l.len()]) - 1u32
}

/// A special prime, now and then a huge one.
pub fn any_special(rng: &mut Rng, ok: impl Fn(u32) -> bool) -> BigUint {
    let m = |p: &BigUint| (p % 16u32).to_u32_digits().first().copied().unwrap_or(0);
    let v: Vec<BigUint> = if rng.one_in(10) { huge_primes() } else { special_primes() };
    let v: Vec<BigUint> = v.into_iter().filter(|p| ok(m(p))).collect();
    let i = rng.below(v.len()).min(rng.below(v.len()));
    v[i].clone()
}

pub fn m8(p: &BigUint) -> u32 {
    (p % 8u32).to_u32_digits().first().copied().unwrap_or(0)
}

pub fn big(n: u64) -> BigUint {
    BigUint::from(n)
}
