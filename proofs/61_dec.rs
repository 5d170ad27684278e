// BFV decryption: ciphertexts whose phase is close to the scaled message decrypt to it.
pub proof fn lemma_isum_bound(r: Seq<int>, n: nat, b: int) requires n <= r.len(), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] r[i] <= b, ensures 0 <= isum(r, n) <= n * b, decreases n,
{ if n > 0 { lemma_isum_bound(r, (n - 1) as nat, b); assert(0 <= r[n - 1] <= b); assert(n * b == (n - 1) * b + b) by(nonlinear_arith); } else { assert(0 * b == 0); } }
proof fn lemma_v_bound(sc: RnsScaler, r: Seq<int>)
    requires scaler_wf(sc), r.len() == sc.from.moduli_u64.len(), forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] < sc.from.moduli_u64@[i],
    ensures 0 <= scale_v(sc, r) <= isum(r, r.len()),
{
    let Q = sq(sc); let n = r.len(); let g = sgs(sc); let sh = sc.theta_garner_shift as nat; let tg = map_tg(Q, sh, g); let P = pow2(sh) as int; let H = pow2((sh - 1) as nat) as int; lemma_pow2_pos((sh - 1) as nat); lemma_pow2_unfold(sh);
    let T = dot(r, tg, n); let I = isum(r, n);
    lemma_scale_accuracy(sc, r);
    assert forall|i: int| 0 <= i < n implies #[trigger] r[i] >= 0 by { assert(r[i] < sc.from.moduli_u64@[i]); }
    assert forall|i: int| 0 <= i < n implies 0 <= 1 * (#[trigger] tg[i]) - 0 * g[i] <= P by { assert(sgn(false, sc.theta_garner_lo@[i], sc.theta_garner_hi@[i]) == tg[i]); assert(0 * g[i] == 0); }
    lemma_dot_scaled(r, tg, g, n, 1, 0, 0, P); let z = dot(r, g, n); assert(0 * z == 0); assert(0 * I == 0);
    assert(T <= P * I);
    let a = T / H; lemma_div_bounds(T, H);
    assert(a <= 2 * I) by(nonlinear_arith) requires a * H <= T, T <= P * I, P == 2 * H, H > 0, I >= 0;
}
/// the representative scaled lies within 3/4 of the product; the quotient is exact to one part in 2^50 beyond the half
pub proof fn lemma_scale_bounds(sc: RnsScaler, r: Seq<int>)
    requires scaler_wf(sc), r.len() == sc.from.moduli_u64.len(), r.len() <= 0x4000, forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] < sc.from.moduli_u64@[i],
    ensures ({ let Q = sden(sc); let d = Q * scale_z(sc, r) - snum(sc) * scale_x(sc, r); Q > 0 && -Q <= 2 * d && 0x4_0000_0000_0000 * d <= Q * 0x2_0000_0000_0001 && -(3 * sq(sc)) <= 4 * scale_x(sc, r) <= 3 * sq(sc) }), sq(sc) > 0,
{
    let Q = sden(sc); let n = r.len(); let d = Q * scale_z(sc, r) - snum(sc) * scale_x(sc, r); let I = isum(r, n); let v = scale_v(sc, r); let x = scale_x(sc, r);
    lemma_scale_accuracy(sc, r); lemma_v_bound(sc, r);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] r[i] <= 0x4000_0000_0000_0000 by { assert(sc.from.moduli_u64@[i] < 0x4000_0000_0000_0000); }
    lemma_isum_bound(r, n, 0x4000_0000_0000_0000);
    let S = 0x1000_0000_0000_0000_0000int;
    assert(I <= S) by(nonlinear_arith) requires I <= n * 0x4000_0000_0000_0000, n <= 0x4000, S == 0x1000_0000_0000_0000_0000;
    let D = two127() * d;
    assert(two126() + I + v <= two126() + 2 * S);
    assert(D <= Q * (two126() + 2 * S)) by(nonlinear_arith) requires D <= Q * (two126() + I + v), I + v <= 2 * S, Q > 0;
    assert(two127() == 0x2000_0000_0000_0000_0000 * 0x4_0000_0000_0000int && two126() + 2 * S == 0x2000_0000_0000_0000_0000 * 0x2_0000_0000_0001int);
    assert(0x4_0000_0000_0000 * d <= Q * 0x2_0000_0000_0001) by(nonlinear_arith) requires two127() * d <= Q * (two126() + 2 * S), two127() == 0x2000_0000_0000_0000_0000 * 0x4_0000_0000_0000int, two126() + 2 * S == 0x2000_0000_0000_0000_0000 * 0x2_0000_0000_0001int;
    assert(-Q <= 2 * d) by(nonlinear_arith) requires -(Q * two126()) <= two127() * d, two127() == 2 * two126(), two126() > 0;
    let P = pow2(sc.theta_garner_shift as nat) as int;
    lemma_pows(); if sc.theta_garner_shift < 100 { lemma_pow2_adds(97, 3); lemma2_to64(); lemma_pow2_mono(97, sc.theta_garner_shift as nat); } else { lemma_pow2_mono(100, sc.theta_garner_shift as nat); }
    assert(P >= 2 * S);
    let R = sq(sc); assert(R > 0) by { let s = sc.from.moduli_u64@; assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); } lemma_prodq_pos(s, s.len()); }
    assert(4 * x <= 3 * R && -(3 * R) <= 4 * x) by(nonlinear_arith) requires 2 * (P * x) <= R * P + R * I, -(R * P + R * I) <= 2 * (P * x), I <= S, P >= 2 * S, S > 0, R > 0;
}
pub open spec fn iabs(e: int) -> int { if e < 0 { -e } else { e } }
/// the noise e is below the decryption threshold
pub open spec fn below(Q: int, t: int, e: int) -> bool { 0x4_0000_0000_0000 * (t * iabs(e) + 2 * t) < Q * 0x1_ffff_ffff_ffff }
proof fn lemma_dec_arith(Q: int, t: int, m: int, V: int, u: int, e: int, x: int, Z: int, k: int)
    requires Q > 0, t >= 2, 0 <= m < t, 0 <= u < 2 * t, t * V == Q * m - u, below(Q, t, e), x == V + e - k * Q, -(3 * Q) <= 4 * x <= 3 * Q, -Q <= 2 * (Q * Z - t * x), 0x4_0000_0000_0000 * (Q * Z - t * x) <= Q * 0x2_0000_0000_0001,
    ensures Z == m || Z == m - t,
{
    let te = t * e; let d = Q * Z - t * x; let tx = t * x; let ktQ = (k * t) * Q; let Qm = Q * m; let W = te - u + d; let ta = t * iabs(e);
    assert(-ta <= te <= ta) by(nonlinear_arith) requires ta == t * iabs(e), te == t * e, t >= 2, -iabs(e) <= e <= iabs(e);
    assert(tx == Qm - u + te - ktQ) by(nonlinear_arith) requires tx == t * x, x == V + e - k * Q, t * V == Qm - u, te == t * e, ktQ == (k * t) * Q;
    assert(-Q < W < Q);
    let y = Z - m + k * t;
    assert(Q * y == W) by(nonlinear_arith) requires y == Z - m + k * t, Q * Z == tx + d, tx == Qm - u + te - ktQ, Qm == Q * m, ktQ == (k * t) * Q, W == te - u + d;
    assert(y == 0) by(nonlinear_arith) requires Q * y == W, -Q < W < Q, Q > 0;
    // k is 0 or 1
    let tQ = t * Q; assert(ktQ == k * tQ) by(nonlinear_arith) requires ktQ == (k * t) * Q, tQ == t * Q;
    assert(4 * tx <= 3 * tQ && -(3 * tQ) <= 4 * tx) by(nonlinear_arith) requires tx == t * x, tQ == t * Q, -(3 * Q) <= 4 * x <= 3 * Q, t >= 2;
    assert(0 <= Qm <= tQ - Q) by(nonlinear_arith) requires Qm == Q * m, tQ == t * Q, 0 <= m < t, Q > 0;
    assert(tQ >= 2 * Q) by(nonlinear_arith) requires tQ == t * Q, t >= 2, Q > 0;
    assert(2 * (ta + 2 * t) < Q);
    assert(ktQ == Qm - u + te - tx);
    assert(4 * ktQ < 8 * tQ && 4 * ktQ > -4 * tQ);
    assert(-1 < k < 2) by(nonlinear_arith) requires 4 * ktQ < 8 * tQ, 4 * ktQ > -4 * tQ, ktQ == k * tQ, tQ > 0;
    assert(k == 0 || k == 1); if k == 0 { assert(0 * t == 0); } else { assert(1 * t == t); }
}
/// decryption of one coefficient: phase (Q m - u) / t + e with e below the threshold gives m
pub proof fn lemma_decrypt_coeff(p: BfvParameters, l: int, mb: Poly, k: int, m: int, V: int, u: int, e: int)
    requires bfv_wf(p), 0 <= l < p.q_ctxs.len(), poly_wf(mb), mb.context == p.q_ctxs@[l], 0 <= k < mb.context.degree, 2 * p.plaintext_modulus_u64 <= p.ciphertext_moduli@[0],
      ({ let Q = mb.context.rns.product.v() as int; let t = p.plaintext_modulus_u64 as int; 0 <= m < t && 0 <= u < 2 * t && t * V == Q * m - u && below(Q, t, e) && pval(mb, k) == (V + e) % Q }),
    ensures dec_coeff(p, rqs_val(p.scalars@[l], mb, k)) == m,
{
    lemma_level0(p, l); let sc = p.scalars@[l].rns_scaler; let r = ints(pcol(mb, k)); let Q = sq(sc); let t = p.plaintext_modulus_u64 as int; let c = pctx(mb);
    lemma_pval(mb, k);
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < sc.from.moduli_u64@[i] by { assert(mb.coefficients.rows@[i]@[k] < mb.context.moduli_64@[i]); }
    lemma_scale_bounds(sc, r); lemma_scale_accuracy(sc, r);
    let x = scale_x(sc, r); let Z = scale_z(sc, r); let y = V + e;
    assert(pval(mb, k) == dot(r, sgs(sc), r.len()) % Q);
    let kk = lemma_cong_elim(y, x, Q); // y == x + kk Q
    lemma_dec_arith(Q, t, m, V, u, e, x, Z, kk);
    let q0 = p.ciphertext_moduli@[0] as int;
    if Z == m { lemma_small_mod(m as nat, q0 as nat); lemma_small_mod((m + t) as nat, q0 as nat); lemma_cong_intro(m + t, m, 1, t); lemma_small_mod(m as nat, t as nat); }
    else { lemma_cong_intro(m - t, q0 + m - t, -1, q0); lemma_small_mod((q0 + m - t) as nat, q0 as nat); lemma_cong_intro(q0 + m, m, 1, q0); lemma_small_mod(m as nat, q0 as nat); lemma_small_mod(m as nat, t as nat); }
}
/// the phase of the ciphertext under s is the integer polynomial w
pub open spec fn has_phase(c: BfvCipherText, s: Poly, w: Seq<int>) -> bool {
    w.len() == bctx(c).degree && forall|i: int| 0 <= i < ctx_n(bctx(c)) ==> fwd_post(#[trigger] bctx(c).ntt_ops@[i], modseq(w, cq(bctx(c), i)), ph_row(c, s, i))
}
pub open spec fn msg_ok(Q: int, t: int, m: int, V: int, u: int) -> bool { 0 <= m < t && 0 <= u < 2 * t && t * V == Q * m - u }
/// V is the scaled message: t V = Q m - u coefficient by coefficient
pub open spec fn scaled_msg(Q: int, t: int, m: Seq<u64>, V: Seq<int>) -> bool { V.len() == m.len() && forall|k: int| 0 <= k < m.len() ==> msg_ok(Q, t, m[k] as int, #[trigger] V[k], Q * m[k] - t * V[k]) }
pub proof fn lemma_fwd_inj(o: NttOperator, a: Seq<u64>, b: Seq<u64>, f: Seq<u64>)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size, fwd_post(o, a, f), fwd_post(o, b, f), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] < o.p.p, forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < o.p.p, ensures a == b,
{
    assert forall|t: int| 0 <= t < o.size implies cong(bev(ints(a), 0, o.size as nat, #[trigger] npt(o, t)), bev(ints(b), 0, o.size as nat, npt(o, t)), o.p.p as int) by { assert(f[t] < o.p.p); }
    lemma_eval_inj(o, a, b); assert(a =~= b);
}
/// decryption is correct for every ciphertext of any number of components whose noise is below the threshold
pub proof fn lemma_decrypt(sk: SecretKey, c: BfvCipherText, s: Poly, mb: Poly, values: Seq<u64>, s2: Poly, w: Seq<int>, m: Seq<u64>, V: Seq<int>)
    requires bfv_wf(*c.params), bct_wf(c), dec_rel(sk, c, s, mb, values), is_sk(s2, sk.coeffs@), s2.context == s.context, has_phase(c, s2, w), sk.coeffs@.len() == bctx(c).degree,
      2 * c.params.plaintext_modulus_u64 <= c.params.ciphertext_moduli@[0], m.len() == bctx(c).degree, scaled_msg(bctx(c).rns.product.v() as int, c.params.plaintext_modulus_u64 as int, m, V),
      forall|k: int| 0 <= k < m.len() ==> below(bctx(c).rns.product.v() as int, c.params.plaintext_modulus_u64 as int, #[trigger] w[k] - V[k]),
    ensures values == m,
{
    let x = bctx(c); let P = arcv(c.params); let l = c.level as int; let Q = x.rns.product.v() as int; let t = P.plaintext_modulus_u64 as int;
    lemma_level0(P, l);
    assert forall|i: int, k: int| 0 <= i < ctx_n(x) && 0 <= k < x.degree implies #[trigger] mb.coefficients.rows@[i]@[k] == w[k] % cq(x, i) by {
        let o = x.ntt_ops@[i]; lemma_ctx(x, i); let q = cq(x, i); lemma_same_sk(s, s2, sk.coeffs@, i);
        assert(ph_row(c, s, i) =~= ph_row(c, s2, i)) by { assert forall|k: int| 0 <= k < x.degree implies #[trigger] ph_row(c, s, i)[k] == ph_row(c, s2, i)[k] by { lemma_ph_same_at(c, s, s2, i, k, c.cts.len() as nat); } }
        let a = mb.coefficients.rows@[i]@; let b = modseq(w, q);
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] < o.p.p by { lemma_mod_range(w[j], q); }
        assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] < o.p.p by { assert(mb.coefficients.rows@[i]@[j] < mb.context.moduli_64@[i]); }
        lemma_fwd_inj(o, a, b, ph_row(c, s, i)); lemma_mod_range(w[k], q);
        assert(b[k] as int == w[k] % q); }
    assert forall|k: int| 0 <= k < values.len() implies #[trigger] values[k] == m[k] by {
        assert forall|i: int| 0 <= i < pcol(mb, k).len() implies #[trigger] pcol(mb, k)[i] as int == w[k] % (x.rns.moduli_u64@[i] as int) by { assert(mb.coefficients.rows@[i]@[k] == w[k] % cq(x, i)); }
        lemma_rns_unique(*x.rns, pcol(mb, k), w[k]);
        assert(msg_ok(Q, t, m[k] as int, V[k], Q * m[k] - t * V[k])); assert(below(Q, t, w[k] - V[k]));
        lemma_decrypt_coeff(P, l, mb, k, m[k] as int, V[k], Q * m[k] - t * V[k], w[k] - V[k]); }
    assert(values =~= m);
}
/// the evaluation form of a key is unique
pub proof fn lemma_same_sk(s: Poly, s2: Poly, z: Seq<i64>, i: int) requires is_sk(s, z), is_sk(s2, z), s2.context == s.context, 0 <= i < ctx_n(*s.context), ensures s.coefficients.rows@[i]@ == s2.coefficients.rows@[i]@,
{ let a = s.coefficients.rows@[i]@; let b = s2.coefficients.rows@[i]@; let q = cq(pctx(s), i); assert(denotes(s, i, modseq(ints_i(z), q)) && denotes(s2, i, modseq(ints_i(z), q)));
  assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == b[k] by { } assert(a =~= b); }
proof fn lemma_ph_same_at(c: BfvCipherText, s: Poly, s2: Poly, i: int, k: int, n: nat) requires s.coefficients.rows@[i]@ == s2.coefficients.rows@[i]@, ensures phs(c.cts@, s, i, k, n) == phs(c.cts@, s2, i, k, n), decreases n,
{ if n > 0 { lemma_ph_same_at(c, s, s2, i, k, (n - 1) as nat); } }
// ---- encryption
pub open spec fn vseq(Q: int, t: int, m: Seq<u64>, u: Seq<u64>) -> Seq<int> { Seq::new(m.len(), |k: int| (Q * m[k] - u[k]) / t) }
pub proof fn lemma_vseq(Q: int, t: int, m: Seq<u64>, u: Seq<u64>, k: int)
    requires t >= 2, Q > 0, u.len() == m.len(), 0 <= k < m.len(), m[k] < t, u[k] < 2 * t, u[k] as int % t == (m[k] * (Q % t)) % t,
    ensures msg_ok(Q, t, m[k] as int, vseq(Q, t, m, u)[k], Q * m[k] - t * vseq(Q, t, m, u)[k]), t * vseq(Q, t, m, u)[k] == Q * m[k] - u[k],
{
    let a = m[k] as int; let b = u[k] as int; lemma_mod_twice(Q, t); lemma_cong_mul(a, a, Q % t, Q, t); assert(Q * a == a * Q) by(nonlinear_arith);
    let j = lemma_cong_elim(Q * a, b, t); assert(Q * a - b == j * t); lemma_div_split(j, 0, t); lemma_basic_div(0, t);
    assert(t * j == j * t) by(nonlinear_arith);
}
pub open spec fn pointwise(f: Poly, d: Poly, r: Poly) -> bool { forall|i: int, k: int| 0 <= i < ctx_n(*f.context) && 0 <= k < f.context.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == (pc(f, i, k) * pc(d, i, k)) % cq(*f.context, i) }
/// the encoded plaintext polynomial denotes the scaled message
pub proof fn lemma_to_poly(p: BfvParameters, l: int, m: Seq<u64>, u: Seq<u64>, pb: Poly, f: Poly, r: Poly)
    requires bfv_wf(p), 0 <= l < p.q_ctxs.len(), m.len() == p.degree, u.len() == m.len(), poly_wf(pb), pb.context == p.q_ctxs@[l], pb.representation == Representation::PowerBasis,
      forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] < p.plaintext_modulus_u64,
      forall|k: int| 0 <= k < m.len() ==> #[trigger] (u[k] as int % p.plaintext_modulus_u64 as int) == (m[k] * p.q_mod_ts@[l]) % p.plaintext_modulus_u64 as int && u[k] < 2 * p.plaintext_modulus_u64,
      forall|i: int, k: int| 0 <= i < ctx_n(*pb.context) && 0 <= k < pb.context.degree ==> #[trigger] pb.coefficients.rows@[i]@[k] == (if k < u.len() { u[k] as int % cq(*pb.context, i) } else { 0 }),
      poly_wf(f), f.context == pb.context, f.representation == Representation::Ntt, same_den(pb, f), poly_wf(r), r.context == pb.context, r.representation == Representation::Ntt,
      pointwise(f, p.delta_ts@[l], r),
    ensures ({ let Q = pb.context.rns.product.v() as int; let t = p.plaintext_modulus_u64 as int; scaled_msg(Q, t, m, vseq(Q, t, m, u)) && den_int(r, vseq(Q, t, m, u)) }),
{
    let x = pctx(pb); let Q = x.rns.product.v() as int; let t = p.plaintext_modulus_u64 as int; let V = vseq(Q, t, m, u); lemma_level0(p, l);
    assert(Q > 0) by { let s = x.rns.moduli_u64@; assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); } lemma_prodq_pos(s, s.len()); }
    assert forall|k: int| 0 <= k < m.len() implies msg_ok(Q, t, m[k] as int, #[trigger] V[k], Q * m[k] - t * V[k]) && t * V[k] == Q * m[k] - u[k] by { assert(u[k] as int % t == (m[k] * (Q % t)) % t); assert(m[k] < t); lemma_vseq(Q, t, m, u, k); }
    assert forall|i: int| 0 <= i < ctx_n(x) implies #[trigger] denotes(r, i, modseq(V, cq(x, i))) by {
        let q = cq(x, i); lemma_ctx(x, i); let o = x.ntt_ops@[i]; let d = modseq(V, q); let dl = p.delta_ts@[l]; let row = dl.coefficients.rows@[i]@; let dc = row[0] as int;
        let a = red_seq(u, q); let fa = f.coefficients.rows@[i]@; let fr = r.coefficients.rows@[i]@;
        assert forall|ii: int, k: int| 0 <= ii < ctx_n(x) && 0 <= k < x.degree implies #[trigger] pb.coefficients.rows@[ii]@[k] == u[k] as int % cq(x, ii) by { }
        lemma_red_den(pb, u); assert(denotes(pb, i, a)); assert(denotes(f, i, a));
        assert forall|k: int| 0 <= k < o.size implies cong(#[trigger] d[k] as int, dc * a[k] + 0 * a[k], q) by {
            let v = V[k]; let b = u[k] as int; lemma_mod_range(v, q); lemma_mod_range(b, q); assert(0 * a[k] == 0);
            assert(t * v == Q * m[k] - b);

            lemma_qdiv(x, i); let w = Q / q; // Q == w q
            assert((dl.coefficients.rows@[i]@[0] * -t) % q == 1);
            lemma_small_mod(1, q as nat); lemma_cong_mul(dc * -t, 1, v, v, q); 
            assert((dc * -t) * v == dc * b + (-(dc * m[k]) * w) * q) by(nonlinear_arith) requires t * v == Q * m[k] - b, Q == w * q;
            lemma_cong_intro((dc * -t) * v, dc * b, -(dc * m[k]) * w, q);
            lemma_cong_mul(dc, dc, b % q, b, q); }
        assert forall|k: int| 0 <= k < o.size implies #[trigger] fr[k] < o.p.p && cong(fr[k] as int, dc * fa[k] + 0 * fa[k], q) by {
            assert(0 * fa[k] == 0); assert(dl.coefficients.rows@[i]@[k] == dl.coefficients.rows@[i]@[0] && r.coefficients.rows@[i]@[k] == (pc(f, i, k) * pc(dl, i, k)) % q); assert(pc(f, i, k) * dc == dc * pc(f, i, k)) by(nonlinear_arith); lemma_mod_twice(dc * pc(f, i, k), q); assert(r.coefficients.rows@[i]@[k] < r.context.moduli_64@[i]); }
        lemma_lin_den(o, a, a, d, fa, fa, fr, dc, 0);
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] < q by { lemma_mod_range(V[k], q); } }
}
pub proof fn lemma_qdiv(x: RqContext, i: int) requires ctx_wf(x), 0 <= i < ctx_n(x), ensures x.rns.product.v() as int == (x.rns.product.v() as int / cq(x, i)) * cq(x, i),
{ let s = x.rns.moduli_u64@; lemma_prodx(s, s.len(), i); lemma_ctx(x, i); let X = prodx(s, s.len(), i); let q = cq(x, i); lemma_div_split(X, 0, q); lemma_basic_div(0, q); }
pub open spec fn isadd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| a[k] + b[k]) }
/// the phase of a fresh encryption of a polynomial is the polynomial plus the sampled error
pub proof fn lemma_fresh_phase(sk: SecretKey, pt: Poly, c: BfvCipherText, s: Poly, e: Poly, z: Seq<int>, v: Seq<int>)
    requires poly_wf(pt), pt.representation == Representation::Ntt, bct_wf(c), c.cts.len() == 2, c.params.q_ctxs@[c.level as int] == pt.context, enc_rel(sk, pt, c, s, e, z), den_int(pt, v),
    ensures has_phase(c, s, isadd(v, z)),
{
    let x = pctx(pt); let w = isadd(v, z);
    assert forall|i: int| 0 <= i < ctx_n(x) implies fwd_post(#[trigger] x.ntt_ops@[i], modseq(w, cq(x, i)), ph_row(c, s, i)) by {
        let q = cq(x, i); lemma_ctx(x, i); let o = x.ntt_ops@[i]; let a = modseq(v, q); let b = modseq(z, q); let d = modseq(w, q); let fa = pt.coefficients.rows@[i]@; let fb = e.coefficients.rows@[i]@; let fd = ph_row(c, s, i);
        assert(denotes(pt, i, a) && denotes(e, i, b));
        assert forall|k: int| 0 <= k < o.size implies cong(#[trigger] d[k] as int, 1 * a[k] + 1 * b[k], q) by { lemma_mod_range(v[k], q); lemma_mod_range(z[k], q); lemma_mod_range(w[k], q); lemma_mod_add2(v[k], z[k], q); lemma_mod_twice(w[k], q); }
        assert forall|k: int| 0 <= k < o.size implies #[trigger] fd[k] < o.p.p && cong(fd[k] as int, 1 * fa[k] + 1 * fb[k], q) by {
            let y = pc(s, i, k); let b0 = bc(c, 0, i, k); let b1 = bc(c, 1, i, k); let g = pc(e, i, k) + pc(pt, i, k);
            lemma_pow0(y); lemma_pow1(y); assert(phs(c.cts@, s, i, k, 0) == 0); assert(phs(c.cts@, s, i, k, 1) == phs(c.cts@, s, i, k, 0) + b0 * pow(y, 0)); assert(b0 * 1 == b0); assert(phs(c.cts@, s, i, k, 2) == b0 + b1 * y);
            assert(b0 == (g - b1 * y) % q); lemma_mod_twice(g - b1 * y, q); lemma_cong_add(b0, g - b1 * y, b1 * y, b1 * y, q); lemma_mod_range(b0 + b1 * y, q); lemma_mod_twice(b0 + b1 * y, q); }
        lemma_lin_den(o, a, b, d, fa, fb, fd, 1, 1); }
}
/// decrypting a fresh encryption of an encoded message returns the message
pub proof fn lemma_fresh(sk: SecretKey, pt: Poly, c: BfvCipherText, s: Poly, e: Poly, z: Seq<int>, m: Seq<u64>, V: Seq<int>, s2: Poly, mb: Poly, values: Seq<u64>)
    requires poly_wf(pt), pt.representation == Representation::Ntt, bfv_wf(*c.params), c.params == sk.params, bct_wf(c), c.cts.len() == 2, c.params.q_ctxs@[c.level as int] == pt.context, enc_rel(sk, pt, c, s, e, z), den_int(pt, V),
      scaled_msg(pt.context.rns.product.v() as int, c.params.plaintext_modulus_u64 as int, m, V), dec_rel(sk, c, s2, mb, values), sk.coeffs@.len() == pt.context.degree, 2 * c.params.plaintext_modulus_u64 <= c.params.ciphertext_moduli@[0],
      ({ let t = c.params.plaintext_modulus_u64 as int; 0x4_0000_0000_0000 * (t * (2 * sk.params.variance) + 2 * t) < pt.context.rns.product.v() * 0x1_ffff_ffff_ffff }),
    ensures values == m,
{
    lemma_fresh_phase(sk, pt, c, s, e, z, V); let w = isadd(V, z); let Q = pt.context.rns.product.v() as int; let t = c.params.plaintext_modulus_u64 as int; let b = 2 * sk.params.variance as int;
    assert forall|k: int| 0 <= k < m.len() implies below(Q, t, #[trigger] w[k] - V[k]) by { let y = z[k]; assert(-b <= y <= b); assert(t * iabs(y) <= t * b) by(nonlinear_arith) requires iabs(y) <= b, t >= 0; assert(w[k] - V[k] == y); }
    assert(*s2.context == *s.context); assert(s2.context == s.context);
    lemma_decrypt(sk, c, s2, mb, values, s, w, m, V);
}
/// c encrypts the message m under sk: error z and scaled message V
pub open spec fn enc_msg(sk: SecretKey, m: Seq<u64>, c: BfvCipherText, s: Poly, e: Poly, z: Seq<int>, V: Seq<int>) -> bool {
    exists|p: Poly| #[trigger] enc_rel(sk, p, c, s, e, z) && poly_wf(p) && p.representation == Representation::Ntt && p.context == c.params.q_ctxs@[c.level as int] && den_int(p, V) && scaled_msg(bctx(c).rns.product.v() as int, c.params.plaintext_modulus_u64 as int, m, V)
}
pub proof fn lemma_enc_dec(sk: SecretKey, m: Seq<u64>, c: BfvCipherText, s: Poly, e: Poly, z: Seq<int>, V: Seq<int>, s2: Poly, mb: Poly, values: Seq<u64>)
    requires enc_msg(sk, m, c, s, e, z, V), dec_rel(sk, c, s2, mb, values), bfv_wf(*c.params), c.params == sk.params, bct_wf(c), c.cts.len() == 2, sk.coeffs@.len() == bctx(c).degree, 2 * c.params.plaintext_modulus_u64 <= c.params.ciphertext_moduli@[0],
      ({ let t = c.params.plaintext_modulus_u64 as int; 0x4_0000_0000_0000 * (t * (2 * sk.params.variance) + 2 * t) < bctx(c).rns.product.v() * 0x1_ffff_ffff_ffff }),
    ensures values == m,
{
    let p = choose|p: Poly| #[trigger] enc_rel(sk, p, c, s, e, z) && poly_wf(p) && p.representation == Representation::Ntt && p.context == c.params.q_ctxs@[c.level as int] && den_int(p, V) && scaled_msg(bctx(c).rns.product.v() as int, c.params.plaintext_modulus_u64 as int, m, V);
    lemma_fresh(sk, p, c, s, e, z, m, V, s2, mb, values);
}
