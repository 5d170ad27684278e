use crate::rings::*;
use crate::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::verif_hooks::{bfv::*, evaluations::*, ksk::Ksk, pvw::*, rgsw::RgswCt, rq::*};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn checks(v: &mut Vec<Check>) {
    let mut c = |prop, name, max, f: fn(&mut R, u64) -> Res| v.push(Check { prop, name, max, f });
    c("C10", "encrypt_decrypt", 3000, c10_fresh);
    c("C10", "large_t", 1000, c10_large);
    c("C10", "noise_threshold", 3000, c10_threshold);
    c("C10", "encrypt_poly", 3000, c10_poly);
    c("C10", "measure_noise", 2000, c10_noise);
    c("C10", "parameters", 1000, c10_params);
    c("C11", "components", 3000, c11_exact);
    c("C11", "plaintext_algebra", 1500, c11_decrypt);
    c("C12", "key_switch", 1500, c12_ksk);
    c("C12", "galois", 1500, c12_galois);
    c("C12", "relinearize", 1500, c12_relin);
    c("C13", "external_product", 1200, c13_ext);
    c("C13", "rgsw_rows", 1200, c13_rows);
    c("C14", "poly", 4000, c14_poly);
    c("C14", "simd", 4000, c14_simd);
    c("C14", "simd_slots", 2000, c14_slots);
    c("C14", "to_poly", 3000, c14_topoly);
    c("C14", "large_degree", 3, c14_large);
    c("C15", "round_trip", 2000, c15_round);
    c("C15", "threshold", 600, c15_threshold);
    c("C16", "client", 5000, c16_client);
    c("C16", "unpack", 400, c16_unpack);
    c("C16", "unpack_large", 2, c16_unpack_large);
    c("C16", "server", 400, c16_server);
    c("C19", "parameters", 600, c10_params);
    c("C19", "components", 1200, c19_exact);
    c("C19", "decrypts", 800, c19_decrypt);
}
struct P {
    p: Arc<BfvParameters>,
    n: usize,
    t: u64,
    ms: Vec<u64>,
    v: usize,
}
fn params(r: &mut R, kmin: u64, kmax: u64, bmin: u64, maxlog: u64, tmax: u64) -> P {
    let (k, n) = sizes(r, kmin, kmax, maxlog);
    let same = r.flip();
    let tb = r.range(9, tmax) as u32;
    let t = prime_1_mod(r, tb, 2 * n as u64);
    let tb = 64 - t.leading_zeros();
    loop {
        let bits: Vec<u32> = (0..k).map(|_| if same { 62 } else { r.range(bmin.max(tb as u64 + 2), 62) as u32 }).collect();
        let ms = primes_1_mod(r, &bits, 2 * n as u64);
        if ms.iter().any(|m| *m <= 2 * t) { continue; }
        let v = r.range(1, 16) as usize;
        basis_is(&ms);
        note(format!("degree={n} t={t} moduli={ms:?} variance={v}"));
        return P { p: Arc::new(BfvParameters::new(n, t, ms.clone(), v, BD())), n, t, ms, v };
    }
}
impl P {
    fn q(&self, l: usize) -> BigUint {
        product(&self.ms[..self.ms.len() - l])
    }
    fn lms(&self, l: usize) -> Vec<u64> {
        self.ms[..self.ms.len() - l].to_vec()
    }
    fn d(&self) -> String {
        format!("degree={} t={} moduli={:?} variance={}", self.n, self.t, self.ms, self.v)
    }
    fn sk(&self, r: &mut R) -> (SecretKey, Vec<i64>) {
        let b = 2 * self.v as i64;
        let s: Vec<i64> = match r.below(4) {
            0 => vec![b; self.n],
            1 => { let mut v = vec![0; self.n]; v[r.below(self.n as u64) as usize] = -1; v }
            _ => (0..self.n).map(|_| r.below(2 * b as u64 + 1) as i64 - b).collect(),
        };
        if r.below(3) == 0 {
            let k = SecretKey::generate(&self.p);
            let s = k.coeffs.to_vec();
            return (k, s);
        }
        (SecretKey::new(s.clone(), &self.p), s)
    }
    fn lvl(&self, r: &mut R) -> usize {
        r.below(self.ms.len() as u64) as usize
    }
    fn msg(&self, r: &mut R) -> Vec<u64> {
        let n = self.n;
        let mut z = vec![0; n];
        match r.below(10) {
            0 => vec![self.t - 1; n],
            1 => (0..n).map(|_| r.res(self.t)).collect(),
            2 => { for i in 0..(1 + r.below(3) as usize) { z[i] = r.res(self.t).max(1) } z }
            3 => { z[r.below(2) as usize] = r.range(1, self.t - 1); z }
            4 => { z[r.below(n as u64) as usize] = r.range(1, self.t - 1); z }
            5 => { z[n - 1] = self.t - 1; if r.flip() { z[0] = 1 } z }
            _ => (0..n).map(|_| r.below(self.t)).collect(),
        }
    }
}
fn big(v: &[u64]) -> Vec<BigUint> {
    v.iter().map(|x| BigUint::from(*x)).collect()
}
fn skb(s: &[i64], q: &BigUint) -> Vec<BigUint> {
    s.iter().map(|x| imod(&BigInt::from(*x), q)).collect()
}
fn phase2(c0: &Poly, c1: &Poly, s: &[i64], q: &BigUint) -> Vec<BigUint> {
    addm(&value(c0), &negmul(&value(c1), &skb(s, q), q), q)
}
fn phase(ct: &BfvCipherText, s: &[i64], q: &BigUint) -> Vec<BigUint> {
    let sk = skb(s, q);
    let mut acc = value(&ct.cts[0]);
    let mut si = sk.clone();
    for c in &ct.cts[1..] {
        acc = addm(&acc, &negmul(&value(c), &si, q), q);
        si = negmul(&si, &sk, q);
    }
    acc
}
fn ideal(m: &[u64], t: u64, q: &BigUint) -> Vec<BigUint> {
    m.iter().map(|x| (q * *x) / t).collect()
}
fn shape(ct: &BfvCipherText, p: &P, l: usize, parts: usize) -> Res {
    eq!(ct.level, l, "level of the ciphertext");
    eq!(ct.cts.len(), parts, "number of components");
    ok!(ct.params == p.p, "parameters of the ciphertext");
    for c in &ct.cts {
        ok!(c.context == p.p.q_ctxs[l], "context of a component");
        eq!(c.representation, Representation::Ntt, "representation of a component");
        for (i, m) in p.lms(l).iter().enumerate() {
            ok!(c.coefficients().row(i).iter().all(|x| x < m), "component not reduced");
        }
    }
    Ok(())
}
fn c10_fresh(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 4, 45, 6, 24);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let m = p.msg(r);
    note(format!("{} level={l} sk={s:?} m={m:?}", p.d()));
    let pt = Plaintext::new(&p.p, &m, l, Encoding::Poly);
    let ct = sk.encrypt(&pt);
    shape(&ct, &p, l, 2)?;
    let d = sk.decrypt(&ct);
    eq!(d.values.to_vec(), m, "decrypt(encrypt(m))");
    eq!(d.level, l, "level of the plaintext");
    let e = norm(&subm(&phase(&ct, &s, &q), &ideal(&m, p.t, &q), &q), &q);
    ok!(e <= BigUint::from(2 * p.v + 3), "fresh noise {e} exceeds the error distribution's range");
    let ct2 = sk.encrypt(&pt);
    ok!(value(&ct2.cts[1]) != value(&ct.cts[1]), "two encryptions share their random component");
    eq!(sk.decrypt(&ct2).values.to_vec(), m, "decrypt(encrypt(m)) again");
    Ok(())
}
fn c10_large(r: &mut R, _i: u64) -> Res {
    // plaintext moduli of up to 58 bits, at levels with two or more moduli
    let p = params(r, 2, 4, 61, 5, 58);
    let (sk, s) = p.sk(r);
    let l = r.below(p.ms.len() as u64 - 1) as usize;
    let m = p.msg(r);
    note(format!("{} level={l} sk={s:?} m={m:?}", p.d()));
    eq!(sk.decrypt(&sk.encrypt(&Plaintext::new(&p.p, &m, l, Encoding::Poly))).values.to_vec(), m, "decrypt(encrypt(m))");
    Ok(())
}
fn c10_threshold(r: &mut R, _i: u64) -> Res {
    // any ciphertext (2 or 3 components) whose noise is below Q/2t - t - Q/2^50 decrypts to its message
    // (Q/2^50 covers the fixed-point rounding of the RNS scaler)
    let p = params(r, 1, 4, 50, 5, 16);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let m = p.msg(r);
    let lim = (&q / (2 * p.t) - BigUint::from(p.t + 2)) - (&q >> 50u32);
    let mut ph = ideal(&m, p.t, &q);
    for x in ph.iter_mut() {
        let e = if r.flip() { lim.clone() } else { r.big_below(&lim) };
        *x = if r.flip() { (&*x + e) % &q } else { (&*x + &q - e) % &q };
    }
    let parts = r.range(2, 6) as usize;
    note(format!("{} level={l} sk={s:?} m={m:?} phase={ph:?} parts={parts}", p.d()));
    let ctx = &p.p.q_ctxs[l];
    let sb = skb(&s, &q);
    let mut si = sb.clone();
    let mut c0 = ph.clone();
    let mut cts = vec![];
    for _ in 1..parts {
        let a = vec_below(r, p.n, &q);
        c0 = subm(&c0, &negmul(&a, &si, &q), &q);
        si = negmul(&si, &sb, &q);
        cts.push(mkn(ctx, &a));
    }
    cts.insert(0, mkn(ctx, &c0));
    let ct = BfvCipherText { params: p.p.clone(), cts, level: l };
    eq!(sk.decrypt(&ct).values.to_vec(), m, "decryption of a ciphertext with admissible noise");
    let tr = sk.decrypt_trial(&ct.cts[0], &ct.cts[1]);
    eq!(value(&tr), phase2(&ct.cts[0], &ct.cts[1], &s, &q), "c0 + c1 s");
    Ok(())
}
fn c10_poly(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 4, 30, 6, 12);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let a = vec_below(r, p.n, &q);
    note(format!("{} level={l} sk={s:?} poly={:?}", p.d(), &a[..8]));
    let ct = sk.encrypt_poly(&mkn(&p.p.q_ctxs[l], &a));
    shape(&ct, &p, l, 2)?;
    let e = norm(&subm(&phase(&ct, &s, &q), &a, &q), &q);
    ok!(e <= BigUint::from(2 * p.v), "noise {e}");
    Ok(())
}
fn c10_noise(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 3, 45, 5, 14);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let m = p.msg(r);
    let pt = Plaintext::new(&p.p, &m, l, Encoding::Poly);
    let ct = sk.encrypt(&pt);
    let kb = r.below(q.bits() - 20) as usize;
    let lim = (BigUint::one() << kb).min(&q / (4 * p.t));
    let e: Vec<BigUint> = (0..p.n).map(|_| r.big_below(&(&lim + 1u32))).collect();
    note(format!("{} level={l} sk={s:?} m={m:?} added noise={:?}", p.d(), &e[..4]));
    let ct = &ct + &mkn(&p.p.q_ctxs[l], &e);
    let d = subm(&phase(&ct, &s, &q), &value(&pt.to_poly()), &q);
    let want = d.iter().map(|x| x.bits().min((&q - x).bits()) as usize).max().unwrap();
    eq!(sk.measure_noise(&ct), want, "measure_noise");
    Ok(())
}
fn c10_params(r: &mut R, i: u64) -> Res {
    let p = if i == 0 {
        let b = BfvParameters::default(3, 8, BD());
        ok!(b.plaintext_modulus_u64 == 1153 && b.ciphertext_moduli.len() == 3 && b.variance == 10, "default parameters");
        P { n: 8, t: 1153, ms: b.ciphertext_moduli.clone(), v: 10, p: Arc::new(b) }
    } else {
        params(r, 1, 4, 20, 5, 12)
    };
    let b = &p.p;
    eq!((b.degree, b.plaintext_modulus_u64, b.variance), (p.n, p.t, p.v), "parameters");
    eq!(b.q_ctxs.len(), p.ms.len(), "one context per level");
    for l in 0..p.ms.len() {
        let q = p.q(l);
        eq!(b.q_ctxs[l].moduli_64, p.lms(l), "moduli at level {l}");
        eq!(BigUint::from(b.q_mod_ts[l]), &q % p.t, "q mod t at level {l}");
        let d = value(&b.delta_ts[l]);
        eq!((&d[0] * p.t + 1u32) % &q, BigUint::zero(), "-1/t at level {l}");
        ok!(d[1..].iter().all(|x| x.is_zero()), "-1/t is not constant");
        eq!(b.ctx_level(&b.q_ctxs[l]), Some(l), "ctx_level");
        ok!(b.e_ctxs[l].moduli_64.starts_with(&p.lms(l)), "extended basis extends the basis");
        let ext = product(&b.e_ctxs[l].moduli_64);
        ok!(ext > &q * &q * (p.n as u64) * 2u32, "extended basis too small for a product");
        let mut e = b.e_ctxs[l].moduli_64.clone();
        e.sort();
        e.dedup();
        eq!(e.len(), b.e_ctxs[l].moduli_64.len(), "extended basis repeats a modulus");
    }
    ok!(b.ctx_level(&b.e_ctxs[0]).is_none(), "ctx_level of a foreign context");
    let mut map = b.matrix_reps_index_map.clone();
    map.sort();
    eq!(map, (0..p.n).collect::<Vec<_>>(), "slot map is not a permutation");
    Ok(())
}
fn rct(r: &mut R, p: &P, l: usize) -> BfvCipherText {
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    BfvCipherText { params: p.p.clone(), cts: vec![mkn(ctx, &vec_below(r, p.n, &q)), mkn(ctx, &vec_below(r, p.n, &q))], level: l }
}
// as rct, with every coefficient away from q/2, where the sign of the centred lift is decided by the
// scaler's fixed-point rounding
fn away(r: &mut R, p: &P, l: usize) -> BfvCipherText {
    let q = p.q(l);
    let (half, gap) = (&q >> 1u32, (&q >> 40u32) + 2u32);
    // all coefficients as large as possible in absolute value, of one sign or of alternating sign
    let ext = r.below(8);
    let mut one = || -> Poly {
        if ext < 3 {
            let (lo, hi) = (&half - &gap, &half + &gap + 1u32);
            let v: Vec<BigUint> = (0..p.n).map(|j| if ext == 0 || (ext == 2 && j % 2 == 0) { lo.clone() } else { hi.clone() }).collect();
            return mkn(&p.p.q_ctxs[l], &v);
        }
        let v: Vec<BigUint> = vec_below(r, p.n, &q)
            .into_iter()
            .map(|x| if &x + &gap > half && x < &half + &gap { &x >> 1u32 } else { x })
            .collect();
        mkn(&p.p.q_ctxs[l], &v)
    };
    BfvCipherText { params: p.p.clone(), cts: vec![one(), one()], level: l }
}
fn c11_exact(r: &mut R, i: u64) -> Res {
    let p = params(r, 1, 3, 20, 4, 12);
    let l = p.lvl(r);
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    let nc = if i % 3 == 2 { 3 + r.below(3) as usize } else { 2 };
    let mut rn = |r: &mut R| { let mut c = rct(r, &p, l); while c.cts.len() < nc { let d = rct(r, &p, l); c.cts.push(d.cts[0].clone()); } c };
    let (a, b) = (rn(r), rn(r));
    let pv = vec_below(r, p.n, &q);
    let poly = mkn(ctx, &pv);
    let m = p.msg(r);
    let pt = Plaintext::new(&p.p, &m, l, Encoding::Poly);
    let k = r.big_below(&q);
    note(format!("{} level={l} operand={pv:?} m={m:?} k={k}", p.d()));
    let (va, vb): (Vec<_>, Vec<_>) = (a.cts.iter().map(value).collect(), b.cts.iter().map(value).collect());
    let get = |c: &BfvCipherText| -> Vec<Vec<BigUint>> { c.cts.iter().map(value).collect() };
    let x = &a + &b;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| addm(&va[c], &vb[c], &q)).collect::<Vec<_>>(), "ciphertext sum");
    let x = &a - &b;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| subm(&va[c], &vb[c], &q)).collect::<Vec<_>>(), "ciphertext difference");
    if i % 4 == 3 {
        eq!(get(&(&a + &a)), (0..nc).map(|c| addm(&va[c], &va[c], &q)).collect::<Vec<_>>(), "ciphertext sum with itself");
        eq!(get(&(&a - &a)), vec![vec![BigUint::zero(); p.n]; nc], "ciphertext difference with itself");
    }
    let x = &a + &poly;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| if c == 0 { addm(&va[0], &pv, &q) } else { va[c].clone() }).collect::<Vec<_>>(), "ciphertext plus polynomial");
    let x = &a * &poly;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| negmul(&va[c], &pv, &q)).collect::<Vec<_>>(), "ciphertext times polynomial");
    let x = &a * &pt;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| negmul(&va[c], &big(&m), &q)).collect::<Vec<_>>(), "ciphertext times plaintext");
    let x = &a * &k;
    shape(&x, &p, l, nc)?;
    eq!(get(&x), (0..nc).map(|c| va[c].iter().map(|y| y * &k % &q).collect::<Vec<_>>()).collect::<Vec<_>>(), "ciphertext times integer");
    eq!(get(&a), va, "operand modified");
    if p.ms.len() > 1 && i % 4 == 0 {
        let mut o = rct(r, &p, (l + 1) % p.ms.len());
        while o.cts.len() < nc { let d = o.cts[0].clone(); o.cts.push(d); }
        ok!(catch_unwind(AssertUnwindSafe(|| &a + &o)).is_err(), "a sum across levels was accepted");
        ok!(catch_unwind(AssertUnwindSafe(|| &a - &o)).is_err(), "a difference across levels was accepted");
        let pq = o.cts[0].clone();
        ok!(catch_unwind(AssertUnwindSafe(|| &a + &pq)).is_err(), "adding a polynomial of another level was accepted");
        ok!(catch_unwind(AssertUnwindSafe(|| &a * &pq)).is_err(), "multiplying by a polynomial of another level was accepted");
        let po = Plaintext::new(&p.p, &m, (l + 1) % p.ms.len(), Encoding::Poly);
        ok!(catch_unwind(AssertUnwindSafe(|| &a * &po)).is_err(), "a plaintext product across levels was accepted");
    }
    Ok(())
}
fn ptmul(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    negmul64(a, b, t)
}
fn c11_decrypt(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 3, 55, 4, 16);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let (a, b) = (p.msg(r), p.msg(r));
    note(format!("{} level={l} sk={s:?} a={a:?} b={b:?}", p.d()));
    let pt = |m: &Vec<u64>| Plaintext::new(&p.p, m, l, Encoding::Poly);
    let (x, y) = (sk.encrypt(&pt(&a)), sk.encrypt(&pt(&b)));
    let t = p.t;
    let dec = |c: &BfvCipherText| sk.decrypt(c).values.to_vec();
    eq!(dec(&(&x + &y)), a.iter().zip(&b).map(|(u, v)| (u + v) % t).collect::<Vec<_>>(), "sum");
    eq!(dec(&(&x - &y)), a.iter().zip(&b).map(|(u, v)| (u + t - v) % t).collect::<Vec<_>>(), "difference");
    eq!(dec(&(&x + &pt(&b).to_poly())), a.iter().zip(&b).map(|(u, v)| (u + v) % t).collect::<Vec<_>>(), "plus a scaled plaintext");
    if p.ms.len() - l >= 2 {
        eq!(dec(&(&x * &pt(&b))), ptmul(&a, &b, t), "times a plaintext");
        let k = r.below(t);
        eq!(dec(&(&x * &BigUint::from(k))), a.iter().map(|u| mulm(*u, k, t)).collect::<Vec<_>>(), "times an integer");
    }
    Ok(())
}
fn bound(p: &P, l: usize) -> BigUint {
    // sum over the RNS digits of (degree * digit * error)
    let mut b = BigUint::zero();
    for m in p.lms(l) {
        b += BigUint::from(m) * (p.n as u64) * (2 * p.v as u64);
    }
    b
}
/// rows of a key: error of c0 + c1 s - garner * from
fn rows(k: &Ksk, s: &[i64], from: &[BigUint], p: &P, l: usize) -> Result<Vec<Vec<BigUint>>, String> {
    let q = p.q(l);
    let ms = p.lms(l);
    if k.c0.len() != ms.len() || k.c1.len() != ms.len() { return Err(format!("key has {} and {} rows for {} moduli", k.c0.len(), k.c1.len(), ms.len())); }
    let mut out = vec![];
    for (i, m) in ms.iter().enumerate() {
        let st = &q / *m;
        let g = &st * inv_big(&(&st % *m), &BigUint::from(*m));
        let ph = phase2(&k.c0[i], &k.c1[i], s, &q);
        let want: Vec<BigUint> = from.iter().map(|x| x * &g % &q).collect();
        let e = norm(&subm(&ph, &want, &q), &q);
        if e > BigUint::from(2 * p.v) { return Err(format!("row {i} of the key does not encrypt its gadget multiple: error {e}")); }
        out.push(ph);
    }
    Ok(out)
}
fn ksk_exact(rows: &[Vec<BigUint>], a: &[BigUint], ms: &[u64], q: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let mut acc = vec![BigUint::zero(); n];
    for (i, m) in ms.iter().enumerate() {
        let d: Vec<BigUint> = a.iter().map(|x| x % *m).collect();
        acc = addm(&acc, &negmul(&d, &rows[i], q), q);
    }
    acc
}
fn c12_ksk(r: &mut R, i: u64) -> Res {
    let p = params(r, 1, 4, 25, 5, 12);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    let (k, from) = if i % 4 == 3 {
        let m = p.msg(r);
        let pt = Plaintext::new(&p.p, &m, l, Encoding::Poly);
        (Ksk::new_with_pt(&sk, &pt, l, l), value(&pt.to_poly()))
    } else {
        let f = vec_below(r, p.n, &q);
        (Ksk::new(&sk, &mkn(ctx, &f), l, l), f)
    };
    let a = vec_below(r, p.n, &q);
    note(format!("{} level={l} sk={s:?} from={:?} poly={:?}", p.d(), &from[..4], &a[..4]));
    ok!(k.ksk_context == *ctx && k.ct_context == *ctx, "contexts of the key");
    let rw = rows(&k, &s, &from, &p, l)?;
    let (c0, c1) = k.key_switch(&mkp(ctx, &a));
    let ph = phase2(&c0, &c1, &s, &q);
    eq!(ph, ksk_exact(&rw, &a, &p.lms(l), &q), "key switching is not the gadget product");
    let e = norm(&subm(&ph, &negmul(&a, &from, &q), &q), &q);
    ok!(e <= bound(&p, l), "key switching noise {e}");
    if i < 8 {
        let x = mkn(ctx, &a);
        ok!(catch_unwind(AssertUnwindSafe(|| k.key_switch(&x))).is_err(), "key switching in evaluation form was accepted");
    }
    Ok(())
}
fn c12_galois(r: &mut R, _i: u64) -> Res {
    let p = params(r, 2, 4, 40, 5, 12);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    let e = match r.below(4) { 0 => 3, 1 => 2 * p.n - 1, 2 => p.n + 1, _ => 2 * r.below(p.n as u64) as usize + 1 };
    let gk = GaliosKey::new(&sk, &Substitution::new(ctx, e), l);
    let a = rct(r, &p, l);
    note(format!("{} level={l} sk={s:?} exponent={e}", p.d()));
    let o = gk.relinearize(&a);
    shape(&o, &p, l, 2)?;
    let err = norm(&subm(&phase(&o, &s, &q), &subst(&phase(&a, &s, &q), e, &q), &q), &q);
    ok!(err <= bound(&p, l), "the phase is not the substituted phase: distance {err}");
    // and the message of a fresh ciphertext follows
    if p.ms.len() - l >= 2 {
        let m = p.msg(r);
        let ct = gk.relinearize(&sk.encrypt(&Plaintext::new(&p.p, &m, l, Encoding::Poly)));
        let want: Vec<u64> = subst(&big(&m), e, &BigUint::from(p.t)).iter().map(|x| x.to_u64().unwrap()).collect();
        eq!(sk.decrypt(&ct).values.to_vec(), want, "message after the automorphism");
    }
    Ok(())
}
fn c12_relin(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 4, 25, 5, 12);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    let rk = RelinearizationKey::new(&sk, l);
    let a = vec_below(r, p.n, &q);
    note(format!("{} level={l} sk={s:?} c2={:?}", p.d(), &a[..4]));
    let sb = skb(&s, &q);
    let want = negmul(&a, &negmul(&sb, &sb, &q), &q);
    let (c0, c1) = rk.relinearize_poly(&mkp(ctx, &a));
    let (d0, d1) = rk.relinearize_poly(&mkn(ctx, &a));
    ok!(c0 == d0 && c1 == d1, "relinearisation depends on the representation");
    let e = norm(&subm(&phase2(&c0, &c1, &s, &q), &want, &q), &q);
    ok!(e <= bound(&p, l), "c2 s^2 not preserved: distance {e}");
    Ok(())
}
fn c13_rows(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 4, 25, 5, 12);
    let (sk, s) = p.sk(r);
    let l = p.lvl(r);
    let q = p.q(l);
    let ctx = &p.p.q_ctxs[l];
    let a = rct(r, &p, l);
    let (g, mv) = if r.flip() {
        let m = p.msg(r);
        (RgswCt::encrypt(&sk, &Plaintext::new(&p.p, &m, l, Encoding::Poly)), big(&m))
    } else {
        let f = vec_below(r, p.n, &q);
        (RgswCt::encrypt_poly(&sk, &mkn(ctx, &f)), f)
    };
    note(format!("{} level={l} sk={s:?} m={:?}", p.d(), &mv[..8]));
    let sb = skb(&s, &q);
    let r1 = rows(&g.ksk1, &s, &mv, &p, l)?;
    let r0 = rows(&g.ksk0, &s, &negmul(&mv, &sb, &q), &p, l)?;
    let (c0, c1) = RgswCt::external_product(&g, &a);
    let want = addm(&ksk_exact(&r0, &value(&a.cts[1]), &p.lms(l), &q), &ksk_exact(&r1, &value(&a.cts[0]), &p.lms(l), &q), &q);
    let ph = phase2(&c0, &c1, &s, &q);
    eq!(ph, want, "external product is not the gadget product");
    let e = norm(&subm(&ph, &negmul(&phase(&a, &s, &q), &mv, &q), &q), &q);
    ok!(e <= bound(&p, l) * 2u32, "external product noise {e}");
    let h = RgswCt::try_from_ksks(&g.ksk0, &g.ksk1);
    let (d0, d1) = RgswCt::external_product(&h, &a);
    ok!(c0 == d0 && c1 == d1, "a ciphertext rebuilt from its keys behaves differently");
    Ok(())
}
fn c13_ext(r: &mut R, _i: u64) -> Res {
    let p = params(r, 3, 4, 55, 5, 16);
    let (sk, s) = p.sk(r);
    let l = r.below(p.ms.len() as u64 - 2) as usize;
    let m = p.msg(r);
    let g = p.msg(r);
    note(format!("{} level={l} sk={s:?} rgsw={g:?} bfv={m:?}", p.d()));
    let pt = |m: &Vec<u64>| Plaintext::new(&p.p, m, l, Encoding::Poly);
    let rg = RgswCt::encrypt(&sk, &pt(&g));
    let (c0, c1) = RgswCt::external_product(&rg, &sk.encrypt(&pt(&m)));
    let ct = BfvCipherText { params: p.p.clone(), cts: vec![c0, c1], level: l };
    shape(&ct, &p, l, 2)?;
    eq!(sk.decrypt(&ct).values.to_vec(), ptmul(&g, &m, p.t), "product of the messages");
    Ok(())
}
fn c14_poly(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 1, 30, 6, 60);
    let mut m = p.msg(r);
    m.truncate(if r.flip() { p.n } else { r.below(p.n as u64 + 1) as usize });
    note(format!("{} values={m:?}", p.d()));
    let pt = Plaintext::new(&p.p, &m, 0, Encoding::Poly);
    let mut w = m.clone();
    w.resize(p.n, 0);
    eq!(pt.values.to_vec(), w, "coefficients");
    eq!(pt.decode(), w, "decode(encode(values))");
    Ok(())
}
fn c14_simd(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 2, 30, 6, 60);
    let m = p.msg(r);
    let l = p.lvl(r);
    note(format!("{} values={m:?}", p.d()));
    let pt = Plaintext::new(&p.p, &m, l, Encoding::SIMD);
    ok!(pt.values.iter().all(|x| *x < p.t), "encoded value out of range");
    eq!(pt.decode(), m, "decode(encode(values))");
    eq!(pt.level, l, "level");
    // the other way round: any plaintext polynomial, seen as slots, encodes back to itself
    let mut a = Plaintext::new(&p.p, &m, l, Encoding::Poly);
    a.set_encoding(Encoding::SIMD);
    let v = a.decode();
    eq!(Plaintext::new(&p.p, &v, l, Encoding::SIMD).values.to_vec(), m, "encode(decode(polynomial))");
    Ok(())
}
fn c14_slots(r: &mut R, _i: u64) -> Res {
    let p = params(r, 1, 1, 30, 6, 60);
    let (a, b) = (p.msg(r), p.msg(r));
    note(format!("{} a={a:?} b={b:?}", p.d()));
    let e = |m: &Vec<u64>| Plaintext::new(&p.p, m, 0, Encoding::SIMD);
    let d = |v: Vec<u64>| { let mut x = Plaintext::new(&p.p, &v, 0, Encoding::Poly); x.set_encoding(Encoding::SIMD); x.decode() };
    let t = p.t;
    eq!(d(ptmul(&e(&a).values, &e(&b).values, t)), a.iter().zip(&b).map(|(x, y)| mulm(*x, *y, t)).collect::<Vec<_>>(), "slotwise product");
    eq!(d(e(&a).values.iter().zip(e(&b).values.iter()).map(|(x, y)| (x + y) % t).collect()), a.iter().zip(&b).map(|(x, y)| (x + y) % t).collect::<Vec<_>>(), "slotwise sum");
    // X -> X^3 rotates both rows left by one, X -> X^-1 swaps the rows
    let tb = BigUint::from(t);
    let aut = |k: usize| -> Vec<u64> { subst(&big(&e(&a).values), k, &tb).iter().map(|x| x.to_u64().unwrap()).collect() };
    let h = p.n / 2;
    let rot: Vec<u64> = (0..p.n).map(|i| if i < h { a[(i + 1) % h] } else { a[h + (i - h + 1) % h] }).collect();
    eq!(d(aut(3)), rot, "rotation");
    let sw: Vec<u64> = (0..p.n).map(|i| a[(i + h) % p.n]).collect();
    eq!(d(aut(2 * p.n - 1)), sw, "row swap");
    Ok(())
}
fn c14_large(r: &mut R, i: u64) -> Res {
    let n = 1usize << if i == 0 { 15 } else { r.range(10, 14) };
    let t = prime_1_mod(r, 40, 2 * n as u64);
    let ms = primes_1_mod(r, &[62], 2 * n as u64);
    let p = Arc::new(BfvParameters::new(n, t, ms.clone(), 3, BD()));
    let a: Vec<u64> = (0..n).map(|_| r.below(t)).collect();
    note(format!("degree={n} t={t} moduli={ms:?} values=random"));
    let e = Plaintext::new(&p, &a, 0, Encoding::SIMD);
    ok!(e.decode() == a, "decode(encode(values))");
    let tb = BigUint::from(t);
    let aut = |k: usize| -> Vec<u64> {
        let v: Vec<u64> = subst(&big(&e.values), k, &tb).iter().map(|x| x.to_u64().unwrap()).collect();
        let mut x = Plaintext::new(&p, &v, 0, Encoding::Poly);
        x.set_encoding(Encoding::SIMD);
        x.decode()
    };
    let h = n / 2;
    ok!(aut(3) == (0..n).map(|i| if i < h { a[(i + 1) % h] } else { a[h + (i - h + 1) % h] }).collect::<Vec<_>>(), "rotation");
    ok!(aut(2 * n - 1) == (0..n).map(|i| a[(i + h) % n]).collect::<Vec<_>>(), "row swap");
    Ok(())
}
fn c14_topoly(r: &mut R, _i: u64) -> Res {
    let tm = if r.flip() { 60 } else { 16 };
    let p = params(r, 1, 4, 22, 5, tm);
    let l = p.lvl(r);
    let q = p.q(l);
    let m = p.msg(r);
    note(format!("{} level={l} m={m:?}", p.d()));
    let x = Plaintext::new(&p.p, &m, l, Encoding::Poly).to_poly();
    ok!(x.context == p.p.q_ctxs[l] && x.representation == Representation::Ntt, "context or representation");
    let v = value(&x);
    for j in 0..p.n {
        // q m / t rounded down, up to one unit
        let d = center(&((&v[j] + &q - (&q * m[j]) / p.t) % &q), &q);
        ok!(d == BigInt::zero() || d == BigInt::from(-1), "coefficient {j} is off q m / t by {d}");
    }
    Ok(())
}
fn c15_round(r: &mut R, _i: u64) -> Res {
    let large = r.below(12) == 0;
    let v = if large { r.range(1, 16) } else { r.range(1, 4) } as usize;
    let m = if large { r.range(1, 600) } else { r.range(1, 60) } as usize;
    let n = if large { r.range(1, 600) } else { r.range(1, 90) } as usize;
    let ell = if large { r.range(1, 70) } else { r.range(1, 8) } as usize;
    let qb = if r.flip() { 62 } else { r.range(if large { 20 } else { 14 }, 62) as u32 };
    let q = any_prime(r, qb);
    let p = PvwParams { n, ell, m, q, variance: v };
    note(format!("{p:?}"));
    // m * 2v < q/4 - 4 for every size above
    ok!(((m * 2 * v) as u64) < q / 4 - 4, "harness parameters");
    let sk = PvwSk::gen_sk(&p);
    let pk = sk.gen_pk(&p);
    for _ in 0..4 {
        let msg: Vec<u64> = (0..ell).map(|_| r.below(2)).collect();
        note(format!("{p:?} m={msg:?}"));
        let ct = pk.encrypt(&p, msg.clone());
        eq!((ct.a.len(), ct.b.len()), (n, ell), "shape");
        ok!(ct.a.iter().chain(ct.b.iter()).all(|x| *x < q), "ciphertext not reduced");
        eq!(sk.decrypt(&p, &ct), msg, "decrypt(encrypt(m))");
        // additively homomorphic up to twice the noise: the sum decrypts to the exclusive or
        if ((2 * m * 2 * v) as u64) < q / 4 - 8 {
            let m2: Vec<u64> = (0..ell).map(|_| r.below(2)).collect();
            let c2 = pk.encrypt(&p, m2.clone());
            let s = PvwCiphertext { a: ct.a.iter().zip(&c2.a).map(|(x, y)| (x + y) % q).collect(), b: ct.b.iter().zip(&c2.b).map(|(x, y)| (x + y) % q).collect() };
            eq!(sk.decrypt(&p, &s), msg.iter().zip(&m2).map(|(x, y)| x ^ y).collect::<Vec<_>>(), "sum of ciphertexts");
        }
    }
    Ok(())
}
fn c15_threshold(r: &mut R, _i: u64) -> Res {
    let qb = r.range(6, 61) as u32;
    let q = any_prime(r, qb);
    let (n, ell) = (r.range(1, 6) as usize, r.range(1, 5) as usize);
    let p = PvwParams { n, ell, m: 2, q, variance: 1 };
    let sk = PvwSk::gen_sk(&p);
    for _ in 0..40 {
        let e = r.below(q / 4 - 3) as i64;
        let e = match r.below(3) { 0 => (q / 4 - 4) as i64, _ => e };
        let e = if r.flip() { e } else { -e };
        let bit = r.below(2);
        let v = (e as i128 + (q as i128 / 2) * bit as i128).rem_euclid(q as i128) as u64;
        note(format!("{p:?} a=0 b={v} (bit {bit}, noise {e})"));
        let ct = PvwCiphertext { a: vec![0; n], b: vec![v; ell] };
        eq!(sk.decrypt(&p, &ct), vec![bit; ell], "decryption with admissible noise");
    }
    Ok(())
}
fn c16_client(r: &mut R, i: u64) -> Res {
    let p = params(r, 1, 1, 30, 3, 10);
    let (sk, _) = p.sk(r);
    let (f, d, k) = if i % 8 == 7 { (r.range(1, 5000) as usize, r.range(1, 300) as usize, r.range(1, 5) as usize) } else { (r.range(1, 9) as usize, r.range(1, 5) as usize, r.range(1, 4) as usize) };
    let rows = f * d.pow(k as u32 - 1);
    let q: Vec<usize> = (0..k).map(|j| { let m = if j == 0 { f } else { d }; if r.below(3) == 0 { m - 1 } else { r.below(m as u64) as usize } }).collect();
    note(format!("first_dim={f} dim={d} rows={rows} query={q:?}"));
    let c = Client::new(f, d);
    let v = c.encode(q.clone(), rows, &p.p, &sk);
    let mut w = vec![0u64; f + d * (k - 1)];
    w[q[0]] = 1;
    for j in 1..k { w[f + d * (j - 1) + q[j]] = 1; }
    eq!(v, w, "encoded query");
    if i < 60 {
        let mut bad = q.clone();
        let j = r.below(k as u64) as usize;
        bad[j] = if j == 0 { f } else { d } + r.below(2) as usize;
        ok!(catch_unwind(AssertUnwindSafe(|| c.encode(bad, rows, &p.p, &sk))).is_err(), "an index out of range was accepted");
        ok!(catch_unwind(AssertUnwindSafe(|| c.encode(q.clone(), rows * 2, &p.p, &sk))).is_err(), "a database of another shape was accepted");
    }
    Ok(())
}
fn pirp(r: &mut R, nlog: u64) -> P {
    let k = r.range(3, 4) as usize;
    pirp_of(r, 3, nlog, k)
}
fn pirp_of(r: &mut R, lo: u64, hi: u64, k: usize) -> P {
    let n = 1usize << r.range(lo, hi);
    let tb = r.range(10, 20) as u32;
    let t = prime_1_mod(r, tb, 2 * n as u64);
    let bits: Vec<u32> = (0..k).map(|_| r.range(58, 62) as u32).collect();
    let ms = primes_1_mod(r, &bits, 2 * n as u64);
    let v = r.range(1, 12) as usize;
    basis_is(&ms);
    note(format!("degree={n} t={t} moduli={ms:?} variance={v}"));
    P { p: Arc::new(BfvParameters::new(n, t, ms.clone(), v, BD())), n, t, ms, v }
}
fn c16_unpack(r: &mut R, _i: u64) -> Res {
    let p = pirp(r, 6);
    let (sk, s) = p.sk(r);
    let q = p.q(0);
    let ev = Evaluation::build(&sk, &p.p);
    let a: Vec<BigUint> = vec_below(r, p.n, &q);
    note(format!("{} sk={s:?} packed={:?}", p.d(), &a[..4]));
    // any packed polynomial, at any scale: output j has phase a_j (constant), up to key-switching noise
    let out = ev.unpack(sk.encrypt_poly(&mkn(&p.p.q_ctxs[0], &a)));
    eq!(out.len(), p.n, "number of ciphertexts");
    let lim = bound(&p, 0) * (4 * p.n) as u64 * (p.n as u64) + BigUint::from(2 * p.v as u64);
    for j in 0..p.n {
        shape(&out[j], &p, 0, 2)?;
        let mut ph = phase(&out[j], &s, &q);
        ph[0] = (&ph[0] + &q - &a[j]) % &q;
        let e = norm(&ph, &q);
        ok!(e <= lim, "ciphertext {j} does not carry coefficient {j}: distance {} bits of {}", e.bits(), q.bits());
    }
    let m = p.msg(r);
    let out = ev.unpack(sk.encrypt(&Plaintext::new(&p.p, &m, 0, Encoding::Poly)));
    for j in 0..p.n {
        let mut w = vec![0u64; p.n];
        w[0] = m[j];
        eq!(sk.decrypt(&out[j]).values.to_vec(), w, "message of ciphertext {j}");
    }
    Ok(())
}
fn c16_unpack_large(r: &mut R, i: u64) -> Res {
    let p = if i == 0 { pirp_of(r, 10, 10, 3) } else { pirp_of(r, 7, 9, 3) };
    let (sk, s) = p.sk(r);
    let ev = Evaluation::build(&sk, &p.p);
    let m: Vec<u64> = (0..p.n).map(|_| r.below(p.t)).collect();
    note(format!("{} sk={s:?} m={m:?}", p.d()));
    let out = ev.unpack(sk.encrypt(&Plaintext::new(&p.p, &m, 0, Encoding::Poly)));
    eq!(out.len(), p.n, "number of ciphertexts");
    for j in 0..p.n {
        let mut w = vec![0u64; p.n];
        w[0] = m[j];
        eq!(sk.decrypt(&out[j]).values.to_vec(), w, "message of ciphertext {j}");
    }
    Ok(())
}
fn c16_server(r: &mut R, i: u64) -> Res {
    // now and then many rows: a long first dimension or wide further ones, at a larger degree
    let big_db = i % 8 == 5;
    // rarely a very long first dimension
    let long = i % 24 == 6;
    let p = if long { pirp_of(r, 8, 9, 4) } else if big_db { pirp_of(r, 6, 7, 4) } else { pirp(r, 5) };
    let (sk, s) = p.sk(r);
    let k = if i < 4 { i as usize % 3 + 1 } else { r.range(1, 3) as usize };
    let k = if long { r.range(1, 2) as usize } else { k };
    let f = if long { r.range(60, p.n as u64 - 8) } else if big_db { r.range(5, 40) } else { r.range(1, 4) } as usize;
    let d = if long { 2 } else if big_db { if k == 2 { r.range(3, 8) as usize } else { 3 } } else { r.pick(&[2usize, 2, 4, 3]) };
    if f + d * (k - 1) > p.n { return Ok(()); }
    let rows = f * d.pow(k as u32 - 1);
    let dbv: Vec<Vec<u64>> = (0..rows).map(|_| p.msg(r)).collect();
    let db: Vec<Plaintext> = dbv.iter().map(|m| Plaintext::new(&p.p, m, 0, Encoding::Poly)).collect();
    let query: Vec<usize> = (0..k).map(|j| r.below(if j == 0 { f } else { d } as u64) as usize).collect();
    note(format!("{} sk={s:?} first_dim={f} dim={d} rows={rows} query={query:?} db={dbv:?}", p.d()));
    let c = Client::new(f, d);
    let enc = c.encode(query.clone(), rows, &p.p, &sk);
    let ctx = &p.p.q_ctxs[0];
    let mut cts = vec![sk.encrypt(&Plaintext::new(&p.p, &enc, 0, Encoding::Poly))];
    for g in ctx.rns.garner.iter() {
        let mut x = Poly::try_from_vec_u64(ctx, &enc[f..]);
        x.change_representation(Representation::Ntt);
        x *= g;
        cts.push(sk.encrypt_poly(&x));
    }
    let ev = Evaluation::build(&sk, &p.p);
    let res = Server::new(f, d, &db, &p.p).decode(cts, &ev, &p.p);
    eq!(res.len(), 1, "number of responses");
    let mut idx = 0;
    for j in (1..k).rev() { idx = (idx + query[j]) * if j > 1 { d } else { 1 }; }
    let idx = query[0] + f * idx;
    eq!(sk.decrypt(&res[0]).values.to_vec(), dbv[idx], "retrieved entry (database row {idx})");
    Ok(())
}
fn c19_exact(r: &mut R, i: u64) -> Res {
    let ml = if r.below(4) == 0 { 7 } else { 4 };
    let p = params(r, 1, 3, 25, ml, 12);
    let l = p.lvl(r);
    let q = p.q(l);
    let (mut a, mut b) = (away(r, &p, l), away(r, &p, l));
    if i % 3 == 2 { let c = away(r, &p, l); a.cts.push(c.cts[0].clone()); }
    if i % 5 == 4 { let c = away(r, &p, l); b.cts.push(c.cts[0].clone()); }
    note(format!("{} level={l} components {} x {}: {:?} {:?}", p.d(), a.cts.len(), b.cts.len(), a.cts.iter().map(value).collect::<Vec<_>>(), b.cts.iter().map(value).collect::<Vec<_>>()));
    // now and then an operand with itself
    let same = i % 4 == 1;
    let o = if same { &a * &a } else { &a * &b };
    if same { b = a.clone(); }
    shape(&o, &p, l, a.cts.len() + b.cts.len() - 1)?;
    let cen = |x: &Poly| -> Vec<BigInt> { value(x).iter().map(|c| center(c, &q)).collect() };
    let (ca, cb): (Vec<_>, Vec<_>) = (a.cts.iter().map(cen).collect(), b.cts.iter().map(cen).collect());
    for c in 0..o.cts.len() {
        let mut acc = vec![BigInt::zero(); p.n];
        for x in 0..ca.len() { for y in 0..cb.len() { if x + y == c { for (s, t) in acc.iter_mut().zip(negmul_i(&ca[x], &cb[y])) { *s += t } } } }
        let got = value(&o.cts[c]);
        for j in 0..p.n {
            let two_q = BigInt::from(&q << 1);
            let want: BigInt = (&acc[j] * BigInt::from(2 * p.t) + BigInt::from(q.clone())).div_floor(&two_q);
            let d = center(&((&got[j] + &q - imod(&want, &q)) % &q), &q);
            ok!(d.abs() <= BigInt::one(), "component {c}, coefficient {j} is off round(t/q a b) by {d}");
        }
    }
    Ok(())
}
fn c19_decrypt(r: &mut R, _i: u64) -> Res {
    let p = params(r, 2, 4, 55, 5, 14);
    let (sk, s) = p.sk(r);
    let l = r.below(p.ms.len() as u64 - 1) as usize;
    let (a, b) = (p.msg(r), p.msg(r));
    note(format!("{} level={l} sk={s:?} a={a:?} b={b:?}", p.d()));
    let e = |m: &Vec<u64>| sk.encrypt(&Plaintext::new(&p.p, m, l, Encoding::Poly));
    let (x, y) = (e(&a), e(&b));
    let want = ptmul(&a, &b, p.t);
    let m3 = &x * &y;
    shape(&m3, &p, l, 3)?;
    eq!(sk.decrypt(&m3).values.to_vec(), want, "product, three components");
    let rk = RelinearizationKey::new(&sk, l);
    let m2 = multiply_with_strategy(&x, &y, &rk);
    shape(&m2, &p, l, 2)?;
    eq!(sk.decrypt(&m2).values.to_vec(), want, "product, relinearised");
    // the two products agree up to key-switching noise
    let q = p.q(l);
    let d = norm(&subm(&phase(&m3, &s, &q), &phase(&m2, &s, &q), &q), &q);
    ok!(d <= bound(&p, l), "relinearisation changed the phase by {d}");
    Ok(())
}
