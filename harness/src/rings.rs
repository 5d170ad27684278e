use crate::low::scale_candidates;
use crate::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use onion_pir::verif_hooks::{modulus::Modulus, rns::ScalingFactor, rq::*, utils::sample_vec_cbd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn checks(v: &mut Vec<Check>) {
    let mut c = |prop, name, max, f: fn(&mut R, u64) -> Res| v.push(Check { prop, name, max, f });
    c("C06", "poly_scale", 6000, c06_poly);
    c("C07", "conversions", 15000, c07_conv);
    c("C07", "representation", 15000, c07_rep);
    c("C07", "ring_ops", 15000, c07_ops);
    c("C07", "scalar_neg_inverse", 10000, c07_more);
    c("C07", "refusals", 2000, c07_refuse);
    c("C07", "mixed_lengths", 3000, c07_ctx);
    c("C08", "coefficient_form", 15000, c08_power);
    c("C08", "evaluation_form", 15000, c08_ntt);
    c("C08", "group", 5000, c08_group);
    c("C08", "even_refused", 1000, c08_even);
    c("C08", "large_degree", 4, c08_large);
    c("C07", "large_degree", 4, c07_large);
    c("C09", "large_degree", 4, c09_large);
    c("C09", "next", 15000, c09_next);
    c("C09", "to", 6000, c09_to);
    c("C18", "poly_random", 4000, c18_poly);
}
pub const BD: fn() -> BitDecomposition = || BitDecomposition { base: 4, l: 8 };
pub struct K {
    pub ms: Vec<u64>,
    pub n: usize,
    pub ctx: Arc<RqContext>,
    pub q: BigUint,
}
/// number of moduli and degree: usually small, now and then many moduli or a large degree
pub fn sizes(r: &mut R, kmin: u64, kmax: u64, maxlog: u64) -> (usize, usize) {
    let (k, l) = match r.below(20) {
        0 | 1 => (kmax + r.range(1, 6), r.range(3, maxlog.min(4))),
        2 => (r.range(kmin, kmax.min(kmin + 1)), r.range(maxlog + 1, (maxlog + 1).max(12))),
        _ => (r.range(kmin, kmax), r.range(3, maxlog)),
    };
    (k as usize, 1 << l)
}
pub fn ring(r: &mut R, kmin: u64, kmax: u64, maxlog: u64) -> K {
    let (k, n) = sizes(r, kmin, kmax, maxlog);
    let mode = r.below(3);
    let bits: Vec<u32> = (0..k).map(|_| match mode { 0 => 62, 1 => r.range(14, 30) as u32, _ => r.range(14, 62) as u32 }).collect();
    let ms = primes_1_mod(r, &bits, 2 * n as u64);
    basis_is(&ms);
    K { ctx: Arc::new(RqContext::new(ms.clone(), n, BD())), q: product(&ms), ms, n }
}
pub fn coeffs_in(p: &Poly, ms: &[u64]) -> Vec<BigUint> {
    let c = p.coefficients();
    let q = product(ms);
    let g: Vec<BigUint> = ms.iter().map(|m| { let s = &q / *m; let i = inv_big(&(&s % *m), &BigUint::from(*m)); s * i }).collect();
    (0..c.shape()[1]).map(|j| { let mut x = BigUint::zero(); for i in 0..ms.len() { x += &g[i] * c[[i, j]] } x % &q }).collect()
}
/// coefficients of a polynomial, whatever its representation
pub fn value(p: &Poly) -> Vec<BigUint> {
    let mut t = p.clone();
    t.change_representation(Representation::PowerBasis);
    coeffs_in(&t, &p.context.moduli_64)
}
pub fn mkp(ctx: &Arc<RqContext>, v: &[BigUint]) -> Poly {
    Poly::try_from_bigint(ctx, v)
}
pub fn mkn(ctx: &Arc<RqContext>, v: &[BigUint]) -> Poly {
    let mut p = mkp(ctx, v);
    p.change_representation(Representation::Ntt);
    p
}
thread_local! { static MODS: std::cell::RefCell<Vec<u64>> = std::cell::RefCell::new(vec![]); }
/// the basis whose structure vec_below may exploit
pub fn basis_is(ms: &[u64]) { MODS.with(|m| *m.borrow_mut() = ms.to_vec()) }
/// the prefix of that basis whose product is q
fn basis_of(q: &BigUint) -> Option<Vec<u64>> {
    MODS.with(|m| { let m = m.borrow(); (1..=m.len()).map(|l| m[..l].to_vec()).find(|v| product(v) == *q) })
}
/// a coefficient vector below q, with structured ones over-represented
pub fn vec_below(r: &mut R, n: usize, q: &BigUint) -> Vec<BigUint> {
    let z = || vec![BigUint::zero(); n];
    let at = |r: &mut R| r.below(n as u64) as usize;
    match r.below(16) {
        0 => vec![q - 1u32; n],
        1 => { let mut v = z(); let i = at(r); v[i] = r.big_below(q); v }
        // few leading coefficients: constants, linear, ...
        2 => { let mut v = z(); for i in 0..(1 + r.below(3) as usize).min(n) { v[i] = r.big_below(q) } v }
        3 => { let mut v = z(); v[n - 1] = r.big_below(q); if r.flip() { v[n / 2] = r.big_below(q) } v }
        // coefficients around half the modulus
        4 => (0..n).map(|_| (q >> 1u32) + BigUint::from(r.below(2))).collect(),
        5 => (0..n).map(|_| BigUint::from(r.below(3)) % q).collect(),
        6 => { let mut v = z(); for _ in 0..3 { let i = at(r); v[i] = r.big_below(q) } v }
        // residue rows of their own structure: some all zero, some at an extreme
        7 | 8 | 9 => match basis_of(q) {
            Some(ms) => {
                let kind: Vec<u64> = ms.iter().map(|_| r.below(6)).collect();
                (0..n).map(|_| crt(&ms.iter().zip(&kind).map(|(m, k)| match k { 0 | 1 => 0, 2 => m - 1, 3 => r.below(2), 4 => m / 2 + r.below(2), _ => r.res(*m) }).collect::<Vec<_>>(), &ms)).collect()
            }
            None => (0..n).map(|_| r.big_below(q)).collect(),
        },
        _ => (0..n).map(|_| r.big_below(q)).collect(),
    }
}
fn sane(p: &Poly, k: &K, rep: Representation) -> Res {
    eq!(p.representation, rep, "representation of the result");
    ok!(p.context == k.ctx, "context of the result changed");
    eq!(p.coefficients().shape().to_vec(), vec![k.ms.len(), k.n], "shape");
    for (i, m) in k.ms.iter().enumerate() {
        ok!(p.coefficients().row(i).iter().all(|x| x < m), "residue row {i} not reduced");
    }
    Ok(())
}
fn c07_conv(r: &mut R, i: u64) -> Res {
    let k = ring(r, 1, 4, 5);
    let len = if i % 2 == 0 { k.n } else { r.range(0, k.n as u64) as usize };
    let u: Vec<u64> = (0..len).map(|_| r.word()).collect();
    let s: Vec<i64> = (0..len).map(|_| match r.below(4) {
        0 => { let m = r.pick(&k.ms); (m * (r.below(((1u64 << 63) - 1) / m) + 1)) as i64 * if r.flip() { 1 } else { -1 } }
        1 => r.below(41) as i64 - 20,
        _ => r.word() as i64,
    }).collect();
    let b: Vec<BigUint> = (0..len).map(|_| r.big_below(&(&k.q << 70))).collect();
    note(format!("moduli={:?} n={} u64={u:?} i64={s:?} big={b:?}", k.ms, k.n));
    let pad = |mut v: Vec<BigUint>| { v.resize(k.n, BigUint::zero()); v };
    let p = Poly::try_from_vec_u64(&k.ctx, &u);
    sane(&p, &k, Representation::PowerBasis)?;
    eq!(coeffs_in(&p, &k.ms), pad(u.iter().map(|x| BigUint::from(*x) % &k.q).collect()).iter().enumerate().map(|(j, x)| if j < len { crt(&residues(&BigUint::from(u[j]), &k.ms), &k.ms) } else { x.clone() }).collect::<Vec<_>>(), "from u64");
    let p = Poly::try_from_vec_i64(&k.ctx, &s);
    sane(&p, &k, Representation::PowerBasis)?;
    eq!(coeffs_in(&p, &k.ms), pad(s.iter().map(|x| imod(&BigInt::from(*x), &k.q)).collect()), "from i64");
    let p = Poly::try_from_bigint(&k.ctx, &b);
    sane(&p, &k, Representation::PowerBasis)?;
    let want = pad(b.iter().map(|x| x % &k.q).collect());
    eq!(coeffs_in(&p, &k.ms), want, "from BigUint");
    eq!(Vec::<BigUint>::from(&p), want, "into BigUint");
    let c1 = Arc::new(RqContext::new(vec![k.ms[0]], k.n, BD()));
    let p = Poly::try_from_vec_u64(&c1, &u);
    let mut w: Vec<u64> = u.iter().map(|x| x % k.ms[0]).collect();
    w.resize(k.n, 0);
    eq!(Vec::<u64>::from(&p), w, "into u64");
    let z = Poly::zero(&k.ctx, Representation::Ntt);
    sane(&z, &k, Representation::Ntt)?;
    ok!(z.coefficients().iter().all(|x| *x == 0), "zero");
    Ok(())
}
fn c07_rep(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 4, 7);
    let a = vec_below(r, k.n, &k.q);
    note(format!("moduli={:?} n={} a={:?}", k.ms, k.n, &a[..4]));
    let p = mkp(&k.ctx, &a);
    let mut x = p.clone();
    x.change_representation(Representation::PowerBasis);
    eq!(x, p, "coefficient form to itself");
    x.change_representation(Representation::Ntt);
    sane(&x, &k, Representation::Ntt)?;
    for i in 0..k.ms.len() {
        let mut row: Vec<u64> = p.coefficients().row(i).to_vec();
        k.ctx.ntt_ops[i].forward(&mut row);
        eq!(x.coefficients().row(i).to_vec(), row, "row {i} of the evaluation form");
    }
    let y = x.clone();
    x.change_representation(Representation::Ntt);
    eq!(x, y, "evaluation form to itself");
    x.change_representation(Representation::PowerBasis);
    eq!(x, p, "there and back");
    // an arbitrary evaluation form
    let mut e = p.clone();
    e.representation = Representation::Ntt;
    let f = e.clone();
    e.change_representation(Representation::PowerBasis);
    sane(&e, &k, Representation::PowerBasis)?;
    e.change_representation(Representation::Ntt);
    eq!(e, f, "back and there");
    Ok(())
}
fn c07_ops(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 3, 5);
    let (a, b) = (vec_below(r, k.n, &k.q), vec_below(r, k.n, &k.q));
    note(format!("moduli={:?} n={} a={a:?} b={b:?}", k.ms, k.n));
    let (x, y) = (mkn(&k.ctx, &a), mkn(&k.ctx, &b));
    let (x0, y0) = (x.clone(), y.clone());
    let s = &x + &y;
    sane(&s, &k, Representation::Ntt)?;
    eq!(value(&s), addm(&a, &b, &k.q), "sum");
    let d = &x - &y;
    sane(&d, &k, Representation::Ntt)?;
    eq!(value(&d), subm(&a, &b, &k.q), "difference");
    let m = &x * &y;
    sane(&m, &k, Representation::Ntt)?;
    eq!(value(&m), negmul(&a, &b, &k.q), "product");
    let mut t = x.clone(); t += &y; eq!(t, s, "+=");
    let mut t = x.clone(); t -= &y; eq!(t, d, "-=");
    let mut t = x.clone(); t *= &y; eq!(t, m, "*=");
    let z = Poly::zero(&k.ctx, Representation::Ntt);
    eq!(&x + &z, x0, "a + 0");
    eq!(&x - &x0, z, "a - a");
    eq!(&x - &x, z, "a - a, the same operand");
    eq!(value(&(&x + &x)), addm(&a, &a, &k.q), "a + a, the same operand");
    eq!(value(&(&x * &x)), negmul(&a, &a, &k.q), "a * a, the same operand");
    ok!(x == x0 && y == y0, "an operand was modified");
    Ok(())
}
fn c07_more(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 3, 6);
    let a = vec_below(r, k.n, &k.q);
    let s = match r.below(4) { 0 => BigUint::from(r.word()), 1 => { let m = r.pick(&k.ms); BigUint::from(m - 1 + r.below(3)) }, _ => r.big_below(&(&k.q << 40)) };
    note(format!("moduli={:?} n={} a={a:?} s={s}", k.ms, k.n));
    let x = mkn(&k.ctx, &a);
    let want: Vec<BigUint> = a.iter().map(|c| c * &s % &k.q).collect();
    let m = &x * &s;
    sane(&m, &k, Representation::Ntt)?;
    eq!(value(&m), want, "integer multiple");
    let mut t = x.clone(); t *= &s; eq!(t, m, "*= integer");
    let neg: Vec<BigUint> = a.iter().map(|c| (&k.q - c) % &k.q).collect();
    let g = -&x;
    sane(&g, &k, Representation::Ntt)?;
    eq!(value(&g), neg, "negation in evaluation form");
    let g = -&mkp(&k.ctx, &a);
    sane(&g, &k, Representation::PowerBasis)?;
    eq!(coeffs_in(&g, &k.ms), neg, "negation in coefficient form");
    // inverse: evaluation form with no zero slot
    let nz: Vec<BigUint> = (0..k.n).map(|_| crt(&k.ms.iter().map(|m| r.res(*m).max(1)).collect::<Vec<_>>(), &k.ms)).collect();
    let mut p = mkp(&k.ctx, &nz);
    p.representation = Representation::Ntt;
    let inv = p.inverse();
    sane(&inv, &k, Representation::Ntt)?;
    let one = &inv * &p;
    ok!(one.coefficients().iter().all(|x| *x == 1), "a * a^-1 is not 1");
    let mut w = vec![BigUint::zero(); k.n];
    w[0] = BigUint::one();
    eq!(value(&one), w, "a * a^-1");
    Ok(())
}
fn c07_refuse(r: &mut R, i: u64) -> Res {
    let k = ring(r, 1, 2, 4);
    let a = vec_below(r, k.n, &k.q);
    let (x, p) = (mkn(&k.ctx, &a), mkp(&k.ctx, &a));
    note(format!("moduli={:?} n={} operation {}", k.ms, k.n, i % 8));
    let res = catch_unwind(AssertUnwindSafe(|| match i % 8 {
        0 => &x + &p, 1 => &p + &x, 2 => &x - &p, 3 => &p - &x, 4 => &x * &p, 5 => &p * &x, 6 => &p * &p, _ => &p * &BigUint::from(3u32),
    }));
    ok!(res.is_err(), "an operation on a polynomial in coefficient form was accepted");
    Ok(())
}
fn c07_ctx(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 2, 5, 4);
    note(format!("moduli={:?} n={}", k.ms, k.n));
    eq!(k.ctx.degree, k.n, "degree");
    eq!(k.ctx.moduli_64, k.ms, "moduli");
    eq!(k.ctx.rns.product, k.q, "product");
    let mut c = k.ctx.clone();
    let mut len = k.ms.len();
    loop {
        eq!(c.moduli_64, k.ms[..len].to_vec(), "moduli of the context chain");
        eq!(k.ctx.switch_iterations(&c), Some(k.ms.len() - len), "switch_iterations");
        if len == 1 { ok!(c.next_ctx.is_none(), "chain too long"); break; }
        let n = c.next_ctx.as_ref().unwrap().clone();
        ok!(n.switch_iterations(&k.ctx).is_none(), "switching up was accepted");
        c = n;
        len -= 1;
    }
    Ok(())
}
fn c08_exp(r: &mut R, n: usize) -> usize {
    let e = match r.below(4) { 0 => 2 * n - 1, 1 => 3, 2 => n + 1, _ => 2 * r.below(n as u64) as usize + 1 };
    if r.below(4) == 0 { e + 2 * n * r.below(5) as usize } else { e }
}
fn c08_power(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 3, 7);
    let e = c08_exp(r, k.n);
    let a = vec_below(r, k.n, &k.q);
    note(format!("moduli={:?} n={} exponent={e} a={:?}", k.ms, k.n, &a[..8]));
    let s = Substitution::new(&k.ctx, e);
    let p = mkp(&k.ctx, &a);
    let o = p.substitute(&s);
    sane(&o, &k, Representation::PowerBasis)?;
    eq!(coeffs_in(&o, &k.ms), subst(&a, e, &k.q), "a(X^{e})");
    eq!(coeffs_in(&p, &k.ms), a, "operand modified");
    Ok(())
}
fn large(r: &mut R, lo: u64, hi: u64, k: usize) -> K {
    let n = 1usize << r.range(lo, hi);
    let ms = primes_1_mod(r, &vec![62; k], 2 * n as u64);
    basis_is(&ms);
    K { ctx: Arc::new(RqContext::new(ms.clone(), n, BD())), q: product(&ms), ms, n }
}
fn c08_large(r: &mut R, i: u64) -> Res {
    let k = if i == 0 { large(r, 17, 17, 1) } else { large(r, 12, 16, 1) };
    let e = c08_exp(r, k.n);
    let a: Vec<BigUint> = (0..k.n).map(|_| r.big_below(&k.q)).collect();
    note(format!("moduli={:?} n={} exponent={e} a=random", k.ms, k.n));
    let s = Substitution::new(&k.ctx, e);
    let w = mkp(&k.ctx, &subst(&a, e, &k.q));
    ok!(mkp(&k.ctx, &a).substitute(&s) == w, "a(X^{e})");
    let mut o = mkn(&k.ctx, &a).substitute(&s);
    o.change_representation(Representation::PowerBasis);
    ok!(o == w, "a(X^{e}) in evaluation form");
    Ok(())
}
fn c07_large(r: &mut R, i: u64) -> Res {
    let k = if i == 0 { large(r, 17, 17, 1) } else { large(r, 13, 16, 1 + (i as usize % 2)) };
    let a: Vec<BigUint> = (0..k.n).map(|_| r.big_below(&k.q)).collect();
    // a sparse second factor, so that the exact product is cheap
    let mut b = vec![BigUint::zero(); k.n];
    for _ in 0..4 { b[r.below(k.n as u64) as usize] = r.big_below(&k.q); }
    note(format!("moduli={:?} n={} a=random b=sparse", k.ms, k.n));
    let (x, y) = (mkn(&k.ctx, &a), mkn(&k.ctx, &b));
    let mut t = x.clone();
    t.change_representation(Representation::PowerBasis);
    ok!(t == mkp(&k.ctx, &a), "there and back");
    for (v, w, what) in [(&x + &y, addm(&a, &b, &k.q), "sum"), (&x - &y, subm(&a, &b, &k.q), "difference"), (&x * &y, negmul(&b, &a, &k.q), "product")] {
        let mut v = v;
        v.change_representation(Representation::PowerBasis);
        ok!(v == mkp(&k.ctx, &w), "{what}");
    }
    Ok(())
}
fn c09_large(r: &mut R, i: u64) -> Res {
    let k = if i == 0 { large(r, 17, 17, 2) } else { large(r, 12, 16, 2) };
    let a: Vec<BigUint> = (0..k.n).map(|_| r.big_below(&k.q)).collect();
    note(format!("moduli={:?} n={} a=random", k.ms, k.n));
    let mut o = mkp(&k.ctx, &a);
    o.mod_switch_down_next();
    let ql = k.ms[1];
    let w: Vec<u64> = a.iter().map(|x| ((x + BigUint::from(ql / 2)) / ql % k.ms[0]).to_u64().unwrap()).collect();
    ok!(o.coefficients().row(0).to_vec() == w, "round(a / {ql})");
    Ok(())
}
fn c08_ntt(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 3, 7);
    let e = c08_exp(r, k.n);
    let a = vec_below(r, k.n, &k.q);
    note(format!("moduli={:?} n={} exponent={e} a={:?}", k.ms, k.n, &a[..8]));
    let s = Substitution::new(&k.ctx, e);
    let o = mkn(&k.ctx, &a).substitute(&s);
    sane(&o, &k, Representation::Ntt)?;
    eq!(value(&o), subst(&a, e, &k.q), "a(X^{e}) in evaluation form");
    Ok(())
}
fn c08_group(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 2, 5);
    let (e, f) = (c08_exp(r, k.n), c08_exp(r, k.n));
    let (a, b) = (vec_below(r, k.n, &k.q), vec_below(r, k.n, &k.q));
    note(format!("moduli={:?} n={} exponents={e},{f}", k.ms, k.n));
    let (se, sf, sef) = (Substitution::new(&k.ctx, e), Substitution::new(&k.ctx, f), Substitution::new(&k.ctx, e * f));
    let (x, y) = (mkn(&k.ctx, &a), mkn(&k.ctx, &b));
    eq!(x.substitute(&se).substitute(&sf), x.substitute(&sef), "composition");
    eq!((&x * &y).substitute(&se), &x.substitute(&se) * &y.substitute(&se), "multiplicative");
    eq!((&x + &y).substitute(&se), &x.substitute(&se) + &y.substitute(&se), "additive");
    let p = mkp(&k.ctx, &a);
    eq!(p.substitute(&Substitution::new(&k.ctx, 1)), p, "identity");
    // the automorphism has the inverse exponent as its inverse
    let m = 2 * k.n;
    let inv = (0..m).find(|g| g * (e % m) % m == 1).unwrap();
    eq!(p.substitute(&se).substitute(&Substitution::new(&k.ctx, inv)), p, "inverse automorphism");
    Ok(())
}
fn c08_even(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 1, 4);
    let e = 2 * r.below(3 * k.n as u64) as usize;
    note(format!("n={} exponent={e}", k.n));
    ok!(catch_unwind(AssertUnwindSafe(|| Substitution::new(&k.ctx, e))).is_err(), "an even exponent was accepted");
    Ok(())
}
fn c09_next(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 2, 5, 5);
    let mut a = vec_below(r, k.n, &k.q);
    let ql = *k.ms.last().unwrap();
    // values around the rounding boundary
    for j in 0..k.n / 2 {
        let m = &k.q / ql;
        let c = r.big_below(&m) * ql + BigUint::from(ql / 2) + BigUint::from(r.below(4));
        a[j] = (c + &k.q - 2u32) % &k.q;
    }
    let p = mkp(&k.ctx, &a);
    note(format!("moduli={:?} n={} a={:?}", k.ms, k.n, &a[..8.min(k.n)]));
    let mut o = p.clone();
    o.mod_switch_down_next();
    ok!(o.context == *k.ctx.next_ctx.as_ref().unwrap(), "context after switching");
    eq!(o.representation, Representation::PowerBasis, "representation");
    let ms = &k.ms[..k.ms.len() - 1];
    let q = product(ms);
    eq!(o.coefficients().shape().to_vec(), vec![ms.len(), k.n], "shape");
    for (i, m) in ms.iter().enumerate() {
        ok!(o.coefficients().row(i).iter().all(|x| x < m), "residue row {i} not reduced");
    }
    let want: Vec<BigUint> = a.iter().map(|x| (x + BigUint::from(ql / 2)) / ql % &q).collect();
    eq!(coeffs_in(&o, ms), want, "round(a / {ql})");
    Ok(())
}
fn c09_to(r: &mut R, i: u64) -> Res {
    let k = ring(r, 2, 5, 4);
    let a = vec_below(r, k.n, &k.q);
    let steps = r.below(k.ms.len() as u64) as usize;
    let mut c = k.ctx.clone();
    for _ in 0..steps { let n = c.next_ctx.as_ref().unwrap().clone(); c = n; }
    note(format!("moduli={:?} n={} steps={steps} a={:?}", k.ms, k.n, &a[..8.min(k.n)]));
    let mut o = mkp(&k.ctx, &a);
    o.mod_switch_to(&c);
    ok!(o.context == c, "context after switching");
    let mut v = a.clone();
    for s in 0..steps {
        let ql = k.ms[k.ms.len() - 1 - s];
        let q = product(&k.ms[..k.ms.len() - 1 - s]);
        v = v.iter().map(|x| (x + BigUint::from(ql / 2)) / ql % &q).collect();
    }
    eq!(coeffs_in(&o, &k.ms[..k.ms.len() - steps]), v, "after {steps} steps");
    if i < 8 {
        // refused: evaluation form, or no smaller context
        let mut x = mkn(&k.ctx, &a);
        ok!(catch_unwind(AssertUnwindSafe(|| x.mod_switch_down_next())).is_err(), "switching in evaluation form was accepted");
        let mut y = Poly::zero(&Arc::new(RqContext::new(vec![k.ms[0]], k.n, BD())), Representation::PowerBasis);
        ok!(catch_unwind(AssertUnwindSafe(|| y.mod_switch_down_next())).is_err(), "switching below the last modulus was accepted");
    }
    Ok(())
}
fn c18_poly(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 3, 5);
    let rep = if r.flip() { Representation::Ntt } else { Representation::PowerBasis };
    let v = r.range(1, 16) as usize;
    let seed = r.u();
    note(format!("moduli={:?} n={} variance={v} rng seed={seed}", k.ms, k.n));
    let p = Poly::random(&k.ctx, r, rep.clone());
    sane(&p, &k, rep.clone())?;
    let mut s = [0u8; 32];
    rand::RngCore::fill_bytes(r, &mut s);
    let a = Poly::random_from_seed(&k.ctx, rep.clone(), s);
    sane(&a, &k, rep.clone())?;
    eq!(Poly::random_from_seed(&k.ctx, rep.clone(), s), a, "the same seed gives another polynomial");
    s[r.below(32) as usize] ^= 1 << r.below(8);
    ok!(Poly::random_from_seed(&k.ctx, rep.clone(), s) != a, "another seed gives the same polynomial");
    let e = Poly::random_small(&k.ctx, rep.clone(), v, &mut R::new(seed, "small", 0));
    sane(&e, &k, rep)?;
    let w = sample_vec_cbd(k.n, v, &mut R::new(seed, "small", 0));
    eq!(value(&e), w.iter().map(|x| imod(&BigInt::from(*x), &k.q)).collect::<Vec<_>>(), "small polynomial");
    let _ = Modulus::new(k.ms[0]);
    Ok(())
}
fn c06_poly(r: &mut R, _i: u64) -> Res {
    let k = ring(r, 1, 4, 4);
    let n = k.n;
    let to: Vec<u64> = match r.below(5) {
        0 => { let mut t = k.ms.clone(); for p in primes_1_mod(r, &[62, 61], 2 * n as u64) { if !t.contains(&p) { t.push(p) } } t }
        1 => vec![k.ms[0]],
        2 => { let mut t = primes_1_mod(r, &[50], 2 * n as u64); for p in &k.ms { if !t.contains(p) { t.push(*p) } } t }
        3 => { let mut t = k.ms.clone(); t.reverse(); t }
        _ => primes_1_mod(r, &[62, 40, 30], 2 * n as u64),
    };
    let (num, den) = match r.below(4) { 0 => (BigUint::one(), BigUint::one()), 1 => (BigUint::from(r.range(2, 1 << 20)), k.q.clone()), 2 => (BigUint::from(7u32), BigUint::from(7u32)), _ => (BigUint::from(r.range(1, 900)), BigUint::from(r.range(1, 900))) };
    let tc = Arc::new(RqContext::new(to.clone(), n, BD()));
    let a = vec_below(r, n, &k.q);
    note(format!("from={:?} to={to:?} n={n} factor={num}/{den} a={:?}", k.ms, &a[..8]));
    let sc = RqScaler::new(&k.ctx, &tc, ScalingFactor::new(num.clone(), den.clone()));
    let p = mkp(&k.ctx, &a);
    let o = scale(&sc, &p);
    ok!(o.context == tc, "context of the result");
    eq!(o.representation, Representation::PowerBasis, "representation");
    for j in 0..n {
        let got: Vec<u64> = o.coefficients().column(j).to_vec();
        let c = scale_candidates(&a[j], &k.q, &num, &den);
        ok!(c.iter().any(|x| ires(x, &to) == got), "coefficient {j}: got {got:?}, admissible {:?}", c.iter().map(|x| ires(x, &to)).collect::<Vec<_>>());
    }
    let mut e = p.clone();
    e.change_representation(Representation::Ntt);
    let f = scale(&sc, &e);
    eq!(f.representation, Representation::Ntt, "representation");
    let mut g = f.clone();
    g.change_representation(Representation::PowerBasis);
    eq!(g, o, "scaling in evaluation form");
    let _ = a[0].to_u64();
    Ok(())
}
