//! Independent arithmetic: primes, modular arithmetic, CRT, negacyclic rings over the integers.
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::{CryptoRng, RngCore};

/// deterministic generator (splitmix64) that also records the words it hands out
pub struct R {
    s: u64,
    pub log: Vec<u64>,
    pub rec: bool,
}
impl R {
    pub fn new(seed: u64, name: &str, i: u64) -> R {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
        for b in name.bytes() {
            s = s.rotate_left(7) ^ (b as u64).wrapping_mul(0x100000001B3);
        }
        let mut r = R { s, log: vec![], rec: false };
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        if self.rec {
            self.log.push(z);
        }
        z
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (((self.u() as u128) * (n as u128)) >> 64) as u64
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn flip(&mut self) -> bool {
        self.u() & 1 == 1
    }
    /// a residue with the corner cases over-represented
    pub fn res(&mut self, p: u64) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => p - 1,
            2 => (p / 2 + self.below(3)).min(p - 1),
            3 => self.below(4).min(p - 1),
            4 => p - 1 - self.below(4).min(p - 1),
            _ => self.below(p),
        }
    }
    /// any word, extremes over-represented
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => u64::MAX - self.below(4),
            3 => 1u64 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1),
            5 => self.u() >> self.below(64),
            _ => self.u(),
        }
    }
    pub fn big_below(&mut self, n: &BigUint) -> BigUint {
        match self.below(10) {
            0 => BigUint::zero(),
            1 => n - BigUint::one(),
            2 => (n >> 1) + BigUint::from(self.below(3)),
            3 => { let h = n >> 1; let d = BigUint::from(self.below(3)); if d > h { h } else { h - d } }
            4 => BigUint::from(self.below(1 << 20)),
            5 => { let d = BigUint::from(1 + self.below(1 << 20)); if d > *n { BigUint::zero() } else { n - d } }
            _ => {
                let w = (n.bits() / 32 + 3) as usize;
                let v: Vec<u32> = (0..w).map(|_| self.u() as u32).collect();
                BigUint::new(v) % n
            }
        }
        .min(n - BigUint::one())
    }
}
impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.u() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.u().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&x[..l]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for R {}

pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p)
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}
pub fn prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for q in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % q == 0 {
            return n == q;
        }
    }
    let s = (n - 1).trailing_zeros();
    let d = (n - 1) >> s;
    'o: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powm(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulm(x, x, n);
            if x == n - 1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}
/// a prime = 1 mod m of exactly `bits` bits (or the next possible size)
pub fn prime_1_mod(r: &mut R, bits: u32, m: u64) -> u64 {
    let mut bits = bits.min(62);
    let mb = 64 - m.leading_zeros();
    if bits < mb + 5 {
        bits = mb + 5
    }
    loop {
        let lo = 1u64 << (bits - 1);
        let span = lo;
        let mut x = match r.below(3) {
            0 => lo,
            1 => lo + span - m,
            _ => lo + r.below(span),
        };
        x = x - x % m + 1;
        for _ in 0..4000 {
            if x >= lo && x < lo + span && prime(x) {
                return x;
            }
            x = if x + m < lo + span { x + m } else { lo - lo % m + 1 };
        }
    }
}
/// k distinct primes = 1 mod m
pub fn primes_1_mod(r: &mut R, bits: &[u32], m: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for b in bits {
        loop {
            let p = prime_1_mod(r, *b, m);
            if !v.contains(&p) {
                v.push(p);
                break;
            }
        }
    }
    v
}
pub fn any_prime(r: &mut R, bits: u32) -> u64 {
    if bits <= 2 {
        return r.pick(&[2u64, 3]);
    }
    loop {
        let lo = 1u64 << (bits - 1);
        let mut x = match r.below(3) {
            0 => lo | 1,
            1 => 2 * lo - 1,
            _ => lo + r.below(lo) | 1,
        };
        for _ in 0..2000 {
            if x >= 2 * lo || x < lo {
                break;
            }
            if prime(x) {
                return x;
            }
            x = if x > lo + lo / 2 { x - 2 } else { x + 2 };
        }
    }
}
pub fn product(m: &[u64]) -> BigUint {
    m.iter().fold(BigUint::one(), |a, q| a * *q)
}
pub fn inv_big(a: &BigUint, m: &BigUint) -> BigUint {
    let (a, m) = (BigInt::from(a.clone()), BigInt::from(m.clone()));
    let e = a.extended_gcd(&m);
    assert!(e.gcd.is_one());
    e.x.mod_floor(&m).to_biguint().unwrap()
}
/// Chinese remaindering (Garner by increments)
pub fn crt(rs: &[u64], ms: &[u64]) -> BigUint {
    let mut x = BigUint::zero();
    let mut m = BigUint::one();
    for (r, q) in rs.iter().zip(ms) {
        let q_ = BigUint::from(*q);
        let cur = &x % &q_;
        let d = (BigUint::from(*r) % &q_ + &q_ - cur) % &q_;
        let t = d * inv_big(&(&m % &q_), &q_) % &q_;
        x += &m * t;
        m *= q_;
    }
    x
}
pub fn residues(x: &BigUint, ms: &[u64]) -> Vec<u64> {
    ms.iter().map(|q| (x % *q).to_u64().unwrap()).collect()
}
pub fn imod(x: &BigInt, m: &BigUint) -> BigUint {
    x.mod_floor(&BigInt::from(m.clone())).to_biguint().unwrap()
}
pub fn ires(x: &BigInt, ms: &[u64]) -> Vec<u64> {
    ms.iter().map(|q| x.mod_floor(&BigInt::from(*q)).to_u64().unwrap()).collect()
}
/// centered representative, in (-m/2, m/2]
pub fn center(x: &BigUint, m: &BigUint) -> BigInt {
    if (x << 1) > *m {
        BigInt::from(x.clone()) - BigInt::from(m.clone())
    } else {
        BigInt::from(x.clone())
    }
}
/// negacyclic product over Z_m
pub fn negmul(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    if n >= 256 && a.iter().filter(|x| !x.is_zero()).count() > 8 {
        return kron(a, b).iter().map(|x| imod(x, m)).collect();
    }
    let mut pos = vec![BigUint::zero(); n];
    let mut neg = vec![BigUint::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            if i + j < n {
                pos[i + j] += &a[i] * &b[j]
            } else {
                neg[i + j - n] += &a[i] * &b[j]
            }
        }
    }
    pos.iter().zip(neg.iter()).map(|(p, q)| (p % m + m - q % m) % m).collect()
}
/// product in Z[X]/(X^n+1), by one big multiplication (coefficients packed into slots wide enough to hold any sum)
pub fn kron(a: &[BigUint], b: &[BigUint]) -> Vec<BigInt> {
    let n = a.len();
    let bits = |v: &[BigUint]| v.iter().map(|x| x.bits()).max().unwrap_or(0);
    let w = ((bits(a) + bits(b) + 64 - (n as u64).leading_zeros() as u64) / 32 + 1) as usize;
    let pack = |v: &[BigUint]| {
        let mut d = vec![0u32; n * w];
        for (i, x) in v.iter().enumerate() { for (j, y) in x.to_u32_digits().iter().enumerate() { d[i * w + j] = *y } }
        BigUint::new(d)
    };
    let mut d = (pack(a) * pack(b)).to_u32_digits();
    d.resize(2 * n * w, 0);
    let c = |i: usize| BigInt::from(BigUint::new(d[i * w..(i + 1) * w].to_vec()));
    (0..n).map(|i| c(i) - c(i + n)).collect()
}
pub fn negmul_i(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    if n >= 256 {
        let pos = |v: &[BigInt]| v.iter().map(|x| x.to_biguint().unwrap_or_default()).collect::<Vec<_>>();
        let neg = |v: &[BigInt]| v.iter().map(|x| (-x).to_biguint().unwrap_or_default()).collect::<Vec<_>>();
        let (ap, an, bp, bn) = (pos(a), neg(a), pos(b), neg(b));
        let (x, y, z, t) = (kron(&ap, &bp), kron(&an, &bn), kron(&ap, &bn), kron(&an, &bp));
        return (0..n).map(|i| &x[i] + &y[i] - &z[i] - &t[i]).collect();
    }
    let mut o = vec![BigInt::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            if i + j < n {
                o[i + j] += &a[i] * &b[j]
            } else {
                o[i + j - n] -= &a[i] * &b[j]
            }
        }
    }
    o
}
pub fn negmul64(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    if n >= 256 {
        let up = |v: &[u64]| v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>();
        return kron(&up(a), &up(b)).iter().map(|x| imod(x, &BigUint::from(p)).to_u64().unwrap()).collect();
    }
    let mut o = vec![0u64; n];
    for i in 0..n {
        for j in 0..n {
            let t = mulm(a[i], b[j], p);
            let k = (i + j) % n;
            o[k] = if i + j < n { (o[k] as u128 + t as u128) % p as u128 } else { (o[k] as u128 + p as u128 - t as u128) % p as u128 } as u64;
        }
    }
    o
}
/// a(X^k) in Z_m[X]/(X^n+1)
pub fn subst(a: &[BigUint], k: usize, m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let mut o = vec![BigUint::zero(); n];
    for i in 0..n {
        let e = (i * k) % (2 * n);
        if e < n {
            o[e] = (&o[e] + &a[i]) % m
        } else {
            o[e - n] = (&o[e - n] + m - &a[i] % m) % m
        }
    }
    o
}
pub fn brv(i: usize, n: usize) -> usize {
    let l = n.trailing_zeros();
    let mut r = 0;
    for b in 0..l {
        if i >> b & 1 == 1 {
            r |= 1 << (l - 1 - b)
        }
    }
    r
}
pub fn addm(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + y) % m).collect()
}
pub fn subm(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + m - y) % m).collect()
}
pub fn norm(a: &[BigUint], m: &BigUint) -> BigUint {
    a.iter().map(|x| center(x, m).abs().to_biguint().unwrap()).max().unwrap()
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } }};
}
#[macro_export]
macro_rules! ok {
    ($a:expr, $($m:tt)*) => {{ if !$a { return Err(format!($($m)*)); } }};
}
