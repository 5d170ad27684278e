use crate::*;
use ndarray::{Array1, ArrayView1, ArrayViewMut1};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::verif_hooks::{bfv::BfvParameters, modulus::Modulus, ntt::NttOperator, rns::*, utils::*};
use std::sync::Arc;

pub fn checks(v: &mut Vec<Check>) {
    let mut c = |prop, name, max, f: fn(&mut R, u64) -> Res| v.push(Check { prop, name, max, f });
    c("C01", "scalar", 400000, c01_scalar);
    c("C01", "lazy", 400000, c01_lazy);
    c("C01", "pow_inv", 40000, c01_pow);
    c("C01", "vectors", 40000, c01_vec);
    c("C01", "signed_big", 80000, c01_conv);
    c("C01", "small_exhaustive", 17, c01_small);
    c("C02", "round_trip", 6000, c02_round);
    c("C02", "large_degree", 4, c02_large);
    c("C02", "canonical", 6000, c02_canon);
    c("C02", "unsupported_refused", 40000, c02_refuse);
    c("C03", "large", 2, c03_large);
    c("C03", "evaluation", 2000, c03_eval);
    c("C03", "ring_hom", 2000, c03_hom);
    c("C04", "u256", 600000, c04_u256);
    c("C04", "u256_shift_all", 256, c04_shift);
    c("C04", "ilog_ceil", 200000, c04_small);
    c("C05", "project_lift", 15000, c05_rns);
    c("C06", "scale", 40000, c06_scale);
    c("C06", "scale_ties", 20000, c06_ties);
    c("C06", "scale_wide", 1200, c06_wide);
    c("C17", "generate_prime", 4000, c17_gen);
    c("C17", "is_prime", 40000, c17_isprime);
    c("C17", "moduli", 600, c17_moduli);
    c("C18", "cbd_stream", 15000, c18_cbd);
    c("C18", "unsupported_variance", 400, c18_refuse);
    c("C18", "uniform_range", 5000, c18_uniform);
    c("C20", "bits", 200000, c20_bits);
    c("C20", "digits", 200000, c20_digits);
}
fn modp(r: &mut R, i: u64) -> u64 {
    let bits = if i < 61 { 2 + i as u32 } else { r.range(2, 62) as u32 };
    any_prime(r, bits)
}
/// any modulus, prime or not, up to 62 bits
fn modany(r: &mut R, i: u64) -> u64 {
    if r.flip() {
        return modp(r, i);
    }
    match r.below(6) {
        0 => (1 << 62) - 1 - r.below(5),
        1 => 1 << r.range(1, 61),
        2 => 2 + r.below(10),
        _ => (r.u() >> r.range(2, 62)).max(2),
    }
}
fn c01_scalar(r: &mut R, i: u64) -> Res {
    let p = modany(r, i);
    let m = Modulus::new(p);
    let (a, b) = (r.res(p), r.res(p));
    note(format!("p={p} a={a} b={b}"));
    eq!(m.modulus(), p, "modulus()");
    eq!(m.p, p, "p");
    eq!(m.bits(), (64 - p.leading_zeros()) as u64, "bits()");
    eq!(m.add(a, b), ((a as u128 + b as u128) % p as u128) as u64, "add");
    eq!(m.sub(a, b), ((a as u128 + p as u128 - b as u128) % p as u128) as u64, "sub");
    eq!(m.mul(a, b), mulm(a, b, p), "mul");
    eq!(m.neg(a), (p - a) % p, "neg");
    let s = ((b as u128) << 64) / p as u128;
    eq!(m.shoup(b) as u128, s, "shoup(b)");
    let w = r.word();
    note(format!("p={p} a={w} b={b}"));
    eq!(m.mul_shoup(w, b, s as u64), mulm(w % p, b, p), "mul_shoup");
    eq!(m.reduce(w), w % p, "reduce");
    let x = ((r.word() as u128) << 64 | r.word() as u128) >> (1 + r.below(66));
    note(format!("p={p} a={x}"));
    eq!(m.reduce_u128(x), (x % p as u128) as u64, "reduce_u128");
    let y = r.below(2 * p);
    let y = if r.flip() { y } else { r.pick(&[0, p - 1, p, 2 * p - 1, p + 1]).min(2 * p - 1) };
    note(format!("p={p} x={y}"));
    eq!(Modulus::reduce_ct(y, p), y % p, "reduce_ct");
    if p > 1 && b > 0 {
        let g = b.gcd(&p);
        let want = if g == 1 { Some(inv_big(&BigUint::from(b), &BigUint::from(p)).to_u64().unwrap()) } else { None };
        note(format!("v={b} q={p}"));
        eq!(mod_inverse(b, p), want, "mod_inverse");
    }
    Ok(())
}
fn c01_lazy(r: &mut R, i: u64) -> Res {
    let p = modany(r, i);
    let m = Modulus::new(p);
    let w = r.word();
    let b = r.res(p);
    note(format!("p={p} a={w} b={b}"));
    let z = m.lazy_reduce_ct(w);
    ok!(z < 2 * p && z % p == w % p, "lazy_reduce_ct gives {z}");
    let z = m.lazy_mul_shoup(w, b, m.shoup(b));
    ok!(z < 2 * p && z % p == mulm(w % p, b, p), "lazy_mul_shoup gives {z}");
    let x = ((r.word() as u128) << 64 | r.word() as u128) >> (1 + r.below(66));
    note(format!("p={p} a={x}"));
    let z = m.lazy_reduce_u128(x);
    ok!(z < 2 * p && (z % p) as u128 == x % p as u128, "lazy_reduce_u128 gives {z}");
    Ok(())
}
fn c01_pow(r: &mut R, i: u64) -> Res {
    let p = modp(r, i);
    let m = Modulus::new(p);
    let a = r.res(p);
    let e = match r.below(4) { 0 => r.below(5).min(p - 1), 1 => (1u64 << r.below(62)).min(p - 1), _ => r.res(p) };
    note(format!("p={p} a={a} e={e}"));
    eq!(m.pow(a, e), powm(a, e, p), "pow");
    if a != 0 && p > 2 {
        let v = m.inv(a);
        ok!(v < p && mulm(v, a, p) == 1, "inv gives {v}");
        eq!(m.inv_vec(&[a, 1, p - 1]), vec![v, 1, p - 1], "inv_vec");
    }
    Ok(())
}
fn c01_vec(r: &mut R, i: u64) -> Res {
    let p = modany(r, i);
    let m = Modulus::new(p);
    let n = if i % 64 == 63 { r.range(0, 5000) } else { r.range(0, 9) } as usize;
    let a: Vec<u64> = (0..n).map(|_| r.res(p)).collect();
    let b: Vec<u64> = (0..n).map(|_| r.res(p)).collect();
    let w: Vec<u64> = (0..n).map(|_| r.word()).collect();
    let s = r.res(p);
    note(format!("p={p} a={a:?} b={b:?} w={w:?} s={s}"));
    let mut x = a.clone();
    m.add_vec(&mut x, &b);
    eq!(x, (0..n).map(|i| ((a[i] as u128 + b[i] as u128) % p as u128) as u64).collect::<Vec<_>>(), "add_vec");
    let mut x = a.clone();
    m.sub_vec(&mut x, &b);
    eq!(x, (0..n).map(|i| ((a[i] as u128 + p as u128 - b[i] as u128) % p as u128) as u64).collect::<Vec<_>>(), "sub_vec");
    let mut x = a.clone();
    m.mul_vec(&mut x, &b);
    eq!(x, (0..n).map(|i| mulm(a[i], b[i], p)).collect::<Vec<_>>(), "mul_vec");
    eq!(m.neg_vec(&a), a.iter().map(|x| (p - x) % p).collect::<Vec<_>>(), "neg_vec");
    eq!(m.shoup_vec(&a), a.iter().map(|x| (((*x as u128) << 64) / p as u128) as u64).collect::<Vec<_>>(), "shoup_vec");
    eq!(m.reduce_vec_u64(&w), w.iter().map(|x| x % p).collect::<Vec<_>>(), "reduce_vec_u64");
    let z = m.scalar_mul_vec(&w, s);
    eq!(z.len(), n, "scalar_mul_vec length");
    for k in 0..n {
        ok!(z[k] < 2 * p && z[k] % p == mulm(w[k] % p, s, p), "scalar_mul_vec[{k}] gives {}", z[k]);
    }
    Ok(())
}
fn c01_conv(r: &mut R, i: u64) -> Res {
    let p = modany(r, i);
    let m = Modulus::new(p);
    let w: Vec<i64> = (0..4).map(|_| match r.below(4) { 0 => i64::MIN, 1 => i64::MAX, 2 => r.below(100) as i64 - 50, _ => r.word() as i64 }).collect();
    let b: Vec<BigUint> = (0..3).map(|_| { let k = r.range(1, 400); r.big_below(&(BigUint::one() << k)) }).collect();
    note(format!("p={p} signed={w:?} big={b:?}"));
    eq!(m.reduce_vec_i64(&w), w.iter().map(|x| (*x as i128).rem_euclid(p as i128) as u64).collect::<Vec<_>>(), "reduce_vec_i64");
    eq!(m.reduce_vec_biguint(&b), b.iter().map(|x| (x % p).to_u64().unwrap()).collect::<Vec<_>>(), "reduce_vec_biguint");
    eq!(m.reduce_biguint(&b[0]), (&b[0] % p).to_u64().unwrap(), "reduce_biguint");
    Ok(())
}
fn c01_small(_r: &mut R, i: u64) -> Res {
    let p = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59][i as usize];
    let m = Modulus::new(p);
    for a in 0..p {
        for b in 0..p {
            note(format!("p={p} a={a} b={b}"));
            eq!(m.add(a, b), (a + b) % p, "add");
            eq!(m.sub(a, b), (a + p - b) % p, "sub");
            eq!(m.mul(a, b), a * b % p, "mul");
            eq!(m.pow(a, b), powm(a, b, p), "pow");
            let s = m.shoup(b);
            for x in 0..(4 * p) {
                eq!(m.mul_shoup(x, b, s), x * b % p, "mul_shoup({x})");
            }
        }
        eq!(m.neg(a), (p - a) % p, "neg");
        if a > 0 && p > 2 {
            eq!(m.mul(m.inv(a), a), 1, "inv");
        }
    }
    for x in 0..2 * p {
        eq!(Modulus::reduce_ct(x, p), x % p, "reduce_ct({x})");
    }
    Ok(())
}
// ---------------------------------------------------------------- NTT
fn nttp(r: &mut R, i: u64, maxlog: u64) -> (u64, usize) {
    let n = 1usize << (3 + if i < 7 { i.min(maxlog - 3) } else { r.below(maxlog - 2) });
    let bits = if i % 3 == 0 { 62 } else { r.range(8, 62) as u32 };
    (prime_1_mod(r, bits, 2 * n as u64), n)
}
fn poly64(r: &mut R, p: u64, n: usize) -> Vec<u64> {
    match r.below(6) {
        0 => vec![p - 1; n],
        1 => { let mut v = vec![0; n]; v[r.below(n as u64) as usize] = r.res(p); v }
        2 => (0..n).map(|_| r.res(p)).collect(),
        3 => (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(),
        _ => (0..n).map(|_| r.below(p)).collect(),
    }
}
fn c02_round(r: &mut R, i: u64) -> Res {
    let (p, n) = nttp(r, i, 11);
    let op = NttOperator::new(&Modulus::new(p), n);
    for _ in 0..4 {
        let a = poly64(r, p, n);
        note(format!("p={p} n={n} a={:?}", &a[..n.min(16)]));
        let mut x = a.clone();
        op.forward(&mut x);
        ok!(x.iter().all(|v| *v < p), "forward output not reduced");
        op.backward(&mut x);
        eq!(x, a, "backward(forward(a))");
        op.backward(&mut x);
        ok!(x.iter().all(|v| *v < p), "backward output not reduced");
        op.forward(&mut x);
        eq!(x, a, "forward(backward(a))");
    }
    Ok(())
}
fn c02_large(r: &mut R, i: u64) -> Res {
    let n = 1usize << if i == 0 { 17 } else { r.range(12, 18) };
    let p = prime_1_mod(r, 62, 2 * n as u64);
    let op = NttOperator::new(&Modulus::new(p), n);
    note(format!("p={p} n={n}"));
    let a: Vec<u64> = (0..n).map(|_| r.below(p)).collect();
    let mut x = a.clone();
    op.forward(&mut x);
    ok!(x.iter().all(|v| *v < p), "forward output not reduced");
    op.backward(&mut x);
    ok!(x == a, "backward(forward(a))");
    op.backward(&mut x);
    ok!(x.iter().all(|v| *v < p), "backward output not reduced");
    op.forward(&mut x);
    ok!(x == a, "forward(backward(a))");
    let mut y: Vec<u64> = a.iter().map(|v| v + p * r.below(4)).collect();
    let mut z = a.clone();
    op.forward(&mut y);
    op.forward(&mut z);
    ok!(y == z, "forward on a lazily reduced input");
    Ok(())
}
fn c02_canon(r: &mut R, i: u64) -> Res {
    // lazily reduced inputs: forward accepts [0, 4p), backward [0, 2p), and both give the transform of the class
    let (p, n) = nttp(r, i, 8);
    let op = NttOperator::new(&Modulus::new(p), n);
    let a = poly64(r, p, n);
    let mut x = a.clone();
    op.forward(&mut x);
    let mut y: Vec<u64> = a.iter().map(|v| v + p * r.below(4)).collect();
    note(format!("p={p} n={n} a={:?}", &y[..n.min(16)]));
    op.forward(&mut y);
    eq!(y, x, "forward on a lazily reduced input");
    let mut x = a.clone();
    op.backward(&mut x);
    let mut y: Vec<u64> = a.iter().map(|v| v + p * r.below(2)).collect();
    note(format!("p={p} n={n} a={:?}", &y[..n.min(16)]));
    op.backward(&mut y);
    eq!(y, x, "backward on a lazily reduced input");
    Ok(())
}
fn c02_refuse(r: &mut R, i: u64) -> Res {
    // a pair with no 2n-th root of unity must be refused, not turned into a wrong transform
    let n = [8usize, 16, 32, 64][r.below(4) as usize];
    let (p, n) = match i % 4 {
        0 => { let mut p; loop { p = any_prime(r, 20); if p % (2 * n as u64) != 1 { break; } } (p, n) }
        1 => (prime_1_mod(r, 20, 64), 12),
        2 => (prime_1_mod(r, 30, 64), r.pick(&[1usize, 2, 4])),
        _ => {
            // composites, those with many Fermat liars over-represented
            let m = 2 * n as u64;
            let mut p;
            loop {
                p = match r.below(3) { 0 => (r.below(1 << 10) + 1) * m + 1, 1 => { let a = r.below(1 << 12) + 2; a * (2 * a - 1) }, _ => (r.below(1 << 20) + 1) * m + 1 };
                if p % m == 1 && !prime(p) { break; }
            }
            (p, n)
        }
    };
    note(format!("p={p} n={n}"));
    let res = std::panic::catch_unwind(|| NttOperator::new(&Modulus::new(p), n));
    ok!(res.is_err(), "an unsupported modulus/size pair was accepted");
    Ok(())
}
fn c03_eval(r: &mut R, i: u64) -> Res {
    let (p, n) = nttp(r, i, 8);
    let op = NttOperator::new(&Modulus::new(p), n);
    let mut x = vec![0u64; n];
    x[1] = 1;
    op.forward(&mut x);
    let psi = x[0];
    note(format!("p={p} n={n} transform of X = {:?}", &x[..n.min(16)]));
    ok!(powm(psi, n as u64, p) == p - 1, "the first slot {psi} is not a primitive 2n-th root of unity");
    for k in 0..n {
        eq!(x[k], powm(psi, 2 * brv(k, n) as u64 + 1, p), "slot {k} of the transform of X");
    }
    let a = poly64(r, p, n);
    let mut y = a.clone();
    op.forward(&mut y);
    note(format!("p={p} n={n} a={:?}", &a[..n.min(16)]));
    for k in 0..n {
        let mut s = 0u64;
        for j in (0..n).rev() {
            s = ((mulm(s, x[k], p) as u128 + a[j] as u128) % p as u128) as u64;
        }
        eq!(y[k], s, "value in slot {k}");
    }
    Ok(())
}
fn c03_large(r: &mut R, _i: u64) -> Res {
    let n = 1usize << r.range(12, 18);
    let p = prime_1_mod(r, 62, 2 * n as u64);
    let op = NttOperator::new(&Modulus::new(p), n);
    note(format!("p={p} n={n}"));
    let mut x = vec![0u64; n];
    x[1] = 1;
    op.forward(&mut x);
    let mut s = x.clone();
    s.sort();
    s.dedup();
    ok!(s.len() == n && x.iter().all(|v| powm(*v, n as u64, p) == p - 1), "the transform of X does not list the primitive roots");
    let a = poly64(r, p, n);
    let mut y = a.clone();
    op.forward(&mut y);
    for _ in 0..40 {
        let k = r.below(n as u64) as usize;
        let mut s = 0u64;
        for j in (0..n).rev() { s = ((mulm(s, x[k], p) as u128 + a[j] as u128) % p as u128) as u64; }
        eq!(y[k], s, "value in slot {k}");
    }
    op.backward(&mut y);
    ok!(y == a, "backward(forward(a))");
    Ok(())
}
fn c03_hom(r: &mut R, i: u64) -> Res {
    let (p, n) = nttp(r, i, 8);
    let m = Modulus::new(p);
    let op = NttOperator::new(&m, n);
    let (a, b) = (poly64(r, p, n), poly64(r, p, n));
    note(format!("p={p} n={n} a={:?} b={:?}", &a[..n.min(16)], &b[..n.min(16)]));
    let (mut x, mut y) = (a.clone(), b.clone());
    op.forward(&mut x);
    op.forward(&mut y);
    let mut s: Vec<u64> = (0..n).map(|k| ((x[k] as u128 + y[k] as u128) % p as u128) as u64).collect();
    let mut z: Vec<u64> = (0..n).map(|k| mulm(x[k], y[k], p)).collect();
    op.backward(&mut z);
    op.backward(&mut s);
    eq!(z, negmul64(&a, &b, p), "product");
    eq!(s, (0..n).map(|k| ((a[k] as u128 + b[k] as u128) % p as u128) as u64).collect::<Vec<_>>(), "sum");
    let op2 = NttOperator::new(&m, n);
    let mut w = a.clone();
    op2.forward(&mut w);
    eq!(w, x, "a second operator for the same modulus and size");
    Ok(())
}
// ---------------------------------------------------------------- U256
fn b256(w: &[u64; 4]) -> BigUint {
    w.iter().rev().fold(BigUint::zero(), |a, x| (a << 64) + *x)
}
fn w4(r: &mut R) -> [u64; 4] {
    let z = r.below(6);
    let mut w = [r.word(), r.word(), r.word(), r.word()];
    if z == 0 { w[3] = 0; w[2] = 0; }
    if z == 1 { w = [u64::MAX; 4]; }
    w
}
fn un(x: U256) -> BigUint {
    b256(&<[u64; 4]>::from(x))
}
fn c04_u256(r: &mut R, _i: u64) -> Res {
    let (a, b) = (w4(r), w4(r));
    let s = r.below(256) as usize;
    note(format!("a={a:x?} b={b:x?} s={s}"));
    let (va, vb) = (b256(&a), b256(&b));
    let m = BigUint::one() << 256;
    let mut x = U256::from(a);
    eq!(un(x), va, "from/into words");
    x.wrapping_add_assign(U256::from(b));
    eq!(un(x), (&va + &vb) % &m, "wrapping add");
    let mut x = U256::from(a);
    x.wrapping_sub_assign(U256::from(b));
    eq!(un(x), (&va + &m - &vb) % &m, "wrapping sub");
    let mut y = x;
    y.wrapping_add_assign(U256::from(b));
    eq!(y, U256::from(a), "a - b + b");
    eq!(un(U256::from(a) >> s), &va >> s, "shr");
    let mut y = U256::from(a);
    y >>= s;
    eq!(un(y), &va >> s, "shr_assign");
    eq!(un(!U256::from(a)), &m - 1u32 - &va, "not");
    eq!(U256::from(a).msb(), a[3] >> 63, "msb");
    eq!(un(U256::zero()), BigUint::zero(), "zero");
    let d = [a[0] as u128 | (a[1] as u128) << 64, a[2] as u128 | (a[3] as u128) << 64];
    eq!(un(U256::from(d)), va, "from [u128; 2]");
    eq!(<[u128; 2]>::from(U256::from(a)), d, "into [u128; 2]");
    eq!(u128::from(&U256::from([a[0], a[1], 0, 0])), d[0], "into u128");
    Ok(())
}
fn c04_shift(r: &mut R, i: u64) -> Res {
    for _ in 0..8 {
        let a = w4(r);
        note(format!("a={a:x?} s={i}"));
        let va = b256(&a);
        eq!(un(U256::from(a) >> i as usize), &va >> i as usize, "shr");
    }
    Ok(())
}
fn c04_small(r: &mut R, _i: u64) -> Res {
    let x = r.word().max(1);
    note(format!("x={x}"));
    eq!(ilog2(x), 63 - x.leading_zeros() as usize, "ilog2 u64");
    eq!(ilog2(x as usize), 63 - x.leading_zeros() as usize, "ilog2 usize");
    let y = (x as u128) << r.below(64);
    eq!(ilog2(y), 127 - y.leading_zeros() as usize, "ilog2 u128");
    let (a, b) = (r.word() >> 1, (r.word() >> 1).max(1));
    note(format!("a={a} b={b}"));
    eq!(div_ceil(a, b), a / b + (a % b != 0) as u64, "div_ceil u64");
    eq!(div_ceil(a as u128 * 3, b as u128), (a as u128 * 3) / b as u128 + ((a as u128 * 3) % b as u128 != 0) as u128, "div_ceil u128");
    Ok(())
}
// ---------------------------------------------------------------- RNS
fn basis(r: &mut R, kmax: u64) -> Vec<u64> {
    let k = r.range(1, kmax) as usize;
    let mode = r.below(3);
    let bits: Vec<u32> = (0..k).map(|_| match mode { 0 => 62, 1 => r.range(12, 30) as u32, _ => r.range(12, 62) as u32 }).collect();
    primes_1_mod(r, &bits, 16)
}
fn c05_rns(r: &mut R, i: u64) -> Res {
    let ms = if i == 0 { vec![1153, 4611686018326724609, 4611686018309947393, 4611686018232352769, 4611686018171535361] } else { if i % 32 == 31 { basis(r, 40) } else if r.below(3) == 0 { basis(r, 16) } else { basis(r, 6) } };
    let c = RnsContext::new(&ms);
    let q = product(&ms);
    note(format!("moduli={ms:?}"));
    eq!(c.product, q, "product");
    eq!(*c.modulus(), q, "modulus()");
    eq!(c.moduli_u64, ms, "moduli");
    for (k, g) in c.garner.iter().enumerate() {
        for (j, m) in ms.iter().enumerate() {
            eq!((g % *m).to_u64().unwrap(), (j == k) as u64, "garner {k} modulo modulus {j}");
        }
    }
    let minus = ms.iter().fold(&q * ms.len(), |a, m| a - &q / *m) % &q;
    for k in 0..8 {
        let x = match k { 6 => minus.clone(), 7 => ms.iter().fold(BigUint::zero(), |a, m| a + &q / *m) % &q, _ => r.big_below(&q) };
        note(format!("moduli={ms:?} x={x}"));
        let v = c.project(&x);
        eq!(v, residues(&x, &ms), "project");
        eq!(c.lift(ArrayView1::from(&v)), x, "lift(project(x))");
        let big = &x + &q * r.below(1 << 30);
        eq!(c.project(&big), v, "project of an integer above the product");
        let w: Vec<u64> = ms.iter().map(|m| r.res(*m)).collect();
        note(format!("moduli={ms:?} residues={w:?}"));
        let y = c.lift(ArrayView1::from(&w));
        ok!(y < q, "lift is not below the product");
        eq!(y, crt(&w, &ms), "lift");
    }
    Ok(())
}
/// the integers a correct scaling may return for x: round(centered(x) * N / D), with a hair's breadth at ties
pub fn scale_candidates(x: &BigUint, q: &BigUint, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let one = num == den;
    let mut lifts = vec![];
    let d = BigInt::from(x << 1) - BigInt::from(q.clone());
    let hair = BigInt::from(q >> 50);
    if d <= hair { lifts.push(BigInt::from(x.clone())) }
    if d >= -hair.clone() - 1 { lifts.push(BigInt::from(x.clone()) - BigInt::from(q.clone())) }
    let mut out = vec![];
    for l in lifts {
        if one { out.push(l); continue; }
        let n2: BigInt = l * BigInt::from(num.clone()) * 2;
        let den = BigInt::from(den.clone());
        let r: BigInt = (&n2 + &den).div_floor(&(&den * 2));
        for k in [-1i32, 0, 1] {
            let c: BigInt = &r + k;
            // |c - n/d| <= 1/2 + 2^-40
            let e: BigInt = BigInt::from(&c * &den * 2 - &n2).abs();
            if (&e << 40) <= ((&den << 40) + &den * 2) { out.push(c) }
        }
    }
    out
}
fn c06_one(r: &mut R, from: &Vec<u64>, to: &Vec<u64>, num: &BigUint, den: &BigUint, xs: &[BigUint]) -> Res {
    let (fc, tc) = (Arc::new(RnsContext::new(from)), Arc::new(RnsContext::new(to)));
    let q = product(from);
    note(format!("from={from:?} to={to:?} factor={num}/{den}"));
    let sf = ScalingFactor::new(num.clone(), den.clone());
    eq!(sf.is_one(), num == den, "is_one");
    let sc = RnsScaler::new(&fc, &tc, sf);
    for x in xs {
        let start = r.below(to.len() as u64) as usize;
        let len = r.range(1, (to.len() - start) as u64) as usize;
        note(format!("from={from:?} to={to:?} factor={num}/{den} x={x} start={start} len={len}"));
        let rests = residues(x, from);
        let mut out = Array1::from(vec![r.u(); len]);
        sc.scale(ArrayView1::from(&rests), ArrayViewMut1::from(out.as_slice_mut().unwrap()), start);
        let got = out.to_vec();
        let cands = scale_candidates(x, &q, num, den);
        let ms = &to[start..start + len];
        ok!(cands.iter().any(|c| ires(c, ms) == got), "got {got:?}, admissible {:?}", cands.iter().map(|c| ires(c, ms)).collect::<Vec<_>>());
    }
    Ok(())
}
fn c06_scale(r: &mut R, _i: u64) -> Res {
    let from = basis(r, 5);
    let to = match r.below(4) {
        0 => { let mut t = from.clone(); for p in basis(r, 3) { if !t.contains(&p) { t.push(p) } } t }
        1 => vec![from[0]],
        2 => from[..r.range(1, from.len() as u64) as usize].to_vec(),
        _ => basis(r, 5),
    };
    let q = product(&from);
    let (num, den) = match r.below(7) {
        0 => (BigUint::one(), BigUint::one()),
        1 => (BigUint::from(r.range(2, 1 << 20)), q.clone()),
        2 => (BigUint::from(from[0]), BigUint::from(from[0])),
        3 => (BigUint::from(r.range(1, 1000)), BigUint::from(r.range(1, 1000))),
        4 => (BigUint::one(), BigUint::from(from[from.len() - 1])),
        5 => (BigUint::from(r.range(2, 1 << 50)), q.clone()),
        _ => { let b = BigUint::one() << r.range(1, 100); (r.big_below(&b) + 1u32, r.big_below(&b) + 1u32) }
    };
    // stay where v and w fit the scaler's words: numerator * product / denominator has to keep a sensible size
    if num.bits() > den.bits() + 50 { return Ok(()); }
    let xs: Vec<BigUint> = (0..6).map(|_| r.big_below(&q)).collect();
    c06_one(r, &from, &to, &num, &den, &xs)
}
/// bases with many large moduli: the intermediate quotient no longer fits one word
fn c06_wide(r: &mut R, _i: u64) -> Res {
    let from = { let b = vec![62u32; 6 + (_i % 13) as usize]; primes_1_mod(r, &b, 16) };
    let to = if r.flip() { basis(r, 4) } else { from[..2].to_vec() };
    let q = product(&from);
    let (num, den) = match r.below(4) {
        0 => (BigUint::one(), BigUint::from(r.range(2, 1000))),
        1 => (BigUint::from(r.range(2, 1 << 40)), BigUint::from(r.range(2, 1 << 40))),
        2 => (BigUint::one(), BigUint::one()),
        _ => { let b = BigUint::one() << r.range(1, 200); let d = r.big_below(&b) + 1u32; (r.big_below(&d) + 1u32, d) }
    };
    let mut xs: Vec<BigUint> = (0..12).map(|_| r.big_below(&q)).collect();
    // residues all close to their moduli: the largest quotients
    xs.push(q.clone() - 1u32); xs.push(&q - BigUint::from(r.range(1, 1000)));
    for _ in 0..6 { let rs: Vec<u64> = from.iter().map(|m| m - 1 - r.below(1 << 10)).collect(); let fc = RnsContext::new(&from); xs.push(fc.lift(ArrayView1::from(&rs))); }
    c06_one(r, &from, &to, &num, &den, &xs)
}
fn c06_ties(r: &mut R, _i: u64) -> Res {
    // values close to a rounding boundary of the scaled result
    let from = basis(r, 4);
    let to = if r.flip() { vec![from[0]] } else { basis(r, 3) };
    let q = product(&from);
    let num = BigUint::from(r.range(2, 1 << 22));
    let den = if r.flip() { q.clone() } else { BigUint::from(r.range(2, 1 << 40)) };
    let mut xs = vec![];
    for _ in 0..6 {
        // x with x*num/den = k + 1/2 +- small
        let kmax = (&q * &num / &den).max(BigUint::one());
        let k = r.big_below(&kmax);
        let x = ((k * 2u32 + 1u32) * &den / (&num * 2u32)) % &q;
        let x = match r.below(3) { 0 => x, 1 => (x + 1u32) % &q, _ => if x.is_zero() { x } else { x - 1u32 } };
        xs.push(x);
    }
    if num.bits() > den.bits() + 50 { return Ok(()); }
    c06_one(r, &from, &to, &num, &den, &xs)
}
// ---------------------------------------------------------------- primes
fn c17_gen(r: &mut R, i: u64) -> Res {
    let bits = if i < 53 { 10 + i as usize } else { r.range(10, 62) as usize };
    let m = match r.below(6) { 5 => { let b = bits.min(21); r.range(1 << (b - 5), 1 << b) }, 0 => 2 * r.range(1, 8), 1 => 1 << r.range(1, 12), 2 => 1 << r.range(1, 16), 3 => { let b = bits.min(18); r.range(1 << (b - 5), 1 << (b - 1)) }, _ => r.range(2, 500) };
    let ub = match r.below(3) { 0 => 1u64 << bits, 1 => (1u64 << (bits - 1)) + r.below(1 << (bits - 1)) + 1, _ => (1u64 << bits) - r.below(1 << (bits - 3)) };
    note(format!("num_bits={bits} modulo={m} upper_bound={ub}"));
    let got = generate_prime(bits, m, ub);
    let lo = 1u64 << (bits - 1);
    // the largest number below ub that is 1 modulo m, then downwards
    let mut x = (ub - 2) / m * m + 1;
    let want = loop {
        if x < lo { break None; }
        if prime(x) { break Some(x); }
        if x < m { break None; }
        x -= m
    };
    eq!(got, want, "generate_prime");
    for b in [0usize, 5, 9, 63, 64, 100] {
        eq!(generate_prime(b, m, 1 << 9), None, "generate_prime with {b} bits");
    }
    Ok(())
}
fn c17_isprime(r: &mut R, i: u64) -> Res {
    let x = match r.below(6) {
        0 => i,
        1 => { let b = r.range(2, 31) as u32; any_prime(r, b) * any_prime(r, b) }
        2 => r.pick(&[561u64, 1105, 1729, 2465, 41041, 825265, 321197185, 3215031751, 3474749660383, 341550071728321, 3825123056546413051, 2047, 1373653, 25326001, 4759123141]),
        3 => any_prime(r, 62),
        4 => r.u() | 1,
        _ => r.u() >> r.below(60),
    };
    note(format!("p={x}"));
    eq!(is_prime(x), prime(x), "is_prime");
    Ok(())
}
fn c17_moduli(r: &mut R, i: u64) -> Res {
    let n = 8usize << r.below(5);
    let k = r.range(1, 6) as usize;
    let s0 = r.range(18, 62) as usize;
    let sizes: Vec<usize> = if i % 2 == 0 { vec![s0; k] } else { (0..k).map(|_| r.range(18, 62) as usize).collect() };
    note(format!("sizes={sizes:?} degree={n}"));
    let got = BfvParameters::generate_moduli(&sizes, n);
    ok!(got.is_some(), "no moduli found");
    let got = got.unwrap();
    eq!(got.len(), k, "number of moduli");
    for (j, q) in got.iter().enumerate() {
        eq!(64 - q.leading_zeros() as usize, sizes[j], "size of modulus {q}");
        ok!(prime(*q) && q % (2 * n as u64) == 1, "{q} is not an NTT prime");
        ok!(!got[..j].contains(q), "{q} repeated");
    }
    // requests that cannot be met are refused
    if i < 6 {
        let sizes = vec![10usize; 200];
        note(format!("sizes=[10; 200] degree={n}"));
        eq!(BfvParameters::generate_moduli(&sizes, n), None, "an impossible request");
    }
    Ok(())
}
// ---------------------------------------------------------------- samplers
fn c18_cbd(r: &mut R, i: u64) -> Res {
    let v = if i < 16 { i as usize + 1 } else { r.range(1, 16) as usize };
    let n = if i % 64 == 63 { r.range(0, 1 << 17) } else { r.range(0, 300) } as usize;
    let seed = r.u();
    note(format!("variance={v} size={n} rng seed={seed}"));
    let mut g = R::new(seed, "cbd", 0);
    let mut h = R::new(seed, "cbd", 0);
    let got = sample_vec_cbd(n, v, &mut g);
    eq!(got.len(), n, "length");
    let words: Vec<u64> = (0..(4 * v * n + 63) / 64 + 1).map(|_| h.u()).collect();
    let bit = |k: usize| (words[k / 64] >> (k % 64) & 1) as i64;
    for k in 0..n {
        let a: i64 = (0..2 * v).map(|t| bit(4 * v * k + t)).sum();
        let b: i64 = (0..2 * v).map(|t| bit(4 * v * k + 2 * v + t)).sum();
        eq!(got[k], a - b, "sample {k}");
    }
    Ok(())
}
fn c18_refuse(r: &mut R, i: u64) -> Res {
    let v = match i { 0 => 0, 1 => 17, 2 => 32, 3 => 64, _ => if i % 8 == 0 { 0 } else { r.range(17, 5000) as usize } };
    let n = r.range(0, 40) as usize;
    note(format!("variance={v} size={n}"));
    ok!(std::panic::catch_unwind(|| sample_vec_cbd(n, v, &mut R::new(1, "cbd", 0))).is_err(), "an unsupported variance was accepted");
    Ok(())
}
fn c18_uniform(r: &mut R, i: u64) -> Res {
    let p = modp(r, i);
    let m = Modulus::new(p);
    let n = if i % 64 == 63 { r.range(0, 1 << 17) } else { r.range(0, 200) } as usize;
    note(format!("p={p} n={n}"));
    let v = m.random_vec(n, r);
    eq!(v.len(), n, "length");
    ok!(v.iter().all(|x| *x < p), "sample out of range");
    ok!(m.random(r) < p, "sample out of range");
    Ok(())
}
// ---------------------------------------------------------------- bits
fn c20_bits(r: &mut R, _i: u64) -> Res {
    let k = r.range(0, 80) as usize;
    let m = if k >= 64 { r.word() } else { r.word() & ((1u64 << k) - 1) };
    note(format!("bit_size={k} m={m}"));
    let v = bit_vector(k, m);
    eq!(v.len(), k, "length");
    for j in 0..k {
        eq!(v[j], j < 64 && m >> j & 1 == 1, "bit {j}");
    }
    Ok(())
}
fn c20_digits(r: &mut R, _i: u64) -> Res {
    let k = r.range(1, 64) as usize;
    let d = r.range(1, 64) as usize;
    let m = if k >= 64 { r.word() } else { r.word() & ((1u64 << k) - 1) };
    note(format!("m={m} parent_bits={k} decomp_bits={d}"));
    let v = decompose_bits(m, k, d);
    eq!(v.len(), (k + d - 1) / d, "number of digits");
    let mut s = BigUint::zero();
    for (j, x) in v.iter().enumerate() {
        ok!(d == 64 || *x < 1 << d, "digit {j} too large: {x}");
        s += BigUint::from(*x) << (j * d);
    }
    eq!(s, BigUint::from(m), "recomposition");
    Ok(())
}
