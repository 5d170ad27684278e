// The product of two ciphertexts decrypts to the product of the messages.
/// x0 + x1 s, and x0 + x1 s + x2 s^2
pub open spec fn zph2(x0: Seq<int>, x1: Seq<int>, s: Seq<int>) -> Seq<int> { zadd(x0, nmul(x1, s)) }
pub open spec fn zph3(x0: Seq<int>, x1: Seq<int>, x2: Seq<int>, s: Seq<int>) -> Seq<int> { zadd(zadd(x0, nmul(x1, s)), nmul(x2, nmul(s, s))) }
proof fn lemma_zadd_ac(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>) requires a.len() == b.len() == c.len() == d.len(), ensures zadd(zadd(a, b), zadd(c, d)) == zadd(zadd(a, zadd(c, b)), d), zadd(a, b) == zadd(b, a),
{ assert(zadd(zadd(a, b), zadd(c, d)) =~= zadd(zadd(a, zadd(c, b)), d)); assert(zadd(a, b) =~= zadd(b, a)); }
/// (x0 + x1 s) (y0 + y1 s)
proof fn lemma_tensor_product(x0: Seq<int>, x1: Seq<int>, y0: Seq<int>, y1: Seq<int>, s: Seq<int>)
    requires x0.len() == s.len(), x1.len() == s.len(), y0.len() == s.len(), y1.len() == s.len(),
    ensures zph3(nmul(x0, y0), zadd(nmul(x0, y1), nmul(x1, y0)), nmul(x1, y1), s) == nmul(zph2(x0, x1, s), zph2(y0, y1, s)),
{
    let a = nmul(x1, s); let b = nmul(y1, s); let Y = zph2(y0, y1, s);
    lemma_nmul_add_l(x0, a, Y); lemma_nmul_add_r(x0, y0, b); lemma_nmul_add_r(a, y0, b);
    lemma_nmul_assoc(x0, y1, s); // x0 (y1 s) = (x0 y1) s
    lemma_nmul_assoc(x1, s, y0); lemma_nmul_comm(s, y0); lemma_nmul_assoc(x1, y0, s); // (x1 s) y0 = (x1 y0) s
    lemma_nmul_assoc(x1, s, b); lemma_nmul_comm(y1, s); lemma_nmul_assoc(s, s, y1); lemma_nmul_comm(nmul(s, s), y1); lemma_nmul_assoc(x1, y1, nmul(s, s)); // (x1 s)(y1 s) = (x1 y1)(s s)
    assert(nmul(a, b) == nmul(nmul(x1, y1), nmul(s, s)));
    let p00 = nmul(x0, y0); let p01 = nmul(x0, y1); let p10 = nmul(x1, y0);
    lemma_nmul_add_l(p01, p10, s);
    let L = zph3(p00, zadd(p01, p10), nmul(x1, y1), s); let R = nmul(zph2(x0, x1, s), Y);
    assert(R == zadd(zadd(p00, nmul(p01, s)), zadd(nmul(p10, s), nmul(a, b))));
    assert(L =~= R);
}
/// zph3 is linear
proof fn lemma_zph3_lin(x0: Seq<int>, x1: Seq<int>, x2: Seq<int>, y0: Seq<int>, y1: Seq<int>, y2: Seq<int>, s: Seq<int>, v: int)
    requires x0.len() == s.len(), x1.len() == s.len(), x2.len() == s.len(), y0.len() == s.len(), y1.len() == s.len(), y2.len() == s.len(),
    ensures zph3(zadd(x0, y0), zadd(x1, y1), zadd(x2, y2), s) == zadd(zph3(x0, x1, x2, s), zph3(y0, y1, y2, s)), zph3(zscale(x0, v), zscale(x1, v), zscale(x2, v), s) == zscale(zph3(x0, x1, x2, s), v),
{
    let q = nmul(s, s); lemma_nmul_add_l(x1, y1, s); lemma_nmul_add_l(x2, y2, q); lemma_nmul_scale_l(x1, v, s); lemma_nmul_scale_l(x2, v, q);
    assert(zph3(zadd(x0, y0), zadd(x1, y1), zadd(x2, y2), s) =~= zadd(zph3(x0, x1, x2, s), zph3(y0, y1, y2, s)));
    let l = zph3(zscale(x0, v), zscale(x1, v), zscale(x2, v), s); let r = zscale(zph3(x0, x1, x2, s), v);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] l[k] == r[k] by { let a = x0[k]; let b = nmul(x1, s)[k]; let c = nmul(x2, q)[k]; assert(v * a + v * b + v * c == v * (a + b + c)) by(nonlinear_arith); }
    assert(l =~= r);
}
proof fn lemma_zph3_bound(x0: Seq<int>, x1: Seq<int>, x2: Seq<int>, s: Seq<int>, X: int, S: int)
    requires x0.len() == s.len(), x1.len() == s.len(), x2.len() == s.len(), bounded(x0, X), bounded(x1, X), bounded(x2, X), bounded(s, S), X >= 0, S >= 0,
    ensures bounded(zph3(x0, x1, x2, s), X * phase_gain(s.len() as int, S)), bounded(zph2(x0, x1, s), X * phase_gain(s.len() as int, S)),
{
    let n = s.len() as int; lemma_nmul_norm(x1, s, X, S); lemma_nmul_norm(s, s, S, S); let S2 = n * (S * S); let s2 = nmul(s, s);
    assert(S * S >= 0) by(nonlinear_arith) requires S >= 0; let y = S * S; assert(S2 >= 0) by(nonlinear_arith) requires S2 == n * y, n >= 0, y >= 0; lemma_nmul_norm(x2, s2, X, S2);
    let b1 = n * (X * S); let b2 = n * (X * S2); let B = X * phase_gain(n, S);
    assert(B == X + b1 + b2) by(nonlinear_arith) requires B == X * (1 + n * S + n * S2), b1 == n * (X * S), b2 == n * (X * S2);
    assert(b2 >= 0) by { let z = X * S2; assert(z >= 0) by(nonlinear_arith) requires z == X * S2, X >= 0, S2 >= 0; assert(b2 >= 0) by(nonlinear_arith) requires b2 == n * z, n >= 0, z >= 0; }
    let r = zph3(x0, x1, x2, s); let r2 = zph2(x0, x1, s);
    assert forall|k: int| 0 <= k < r.len() implies -B <= #[trigger] r[k] <= B by { assert(-X <= x0[k] <= X); assert(-b1 <= nmul(x1, s)[k] <= b1); assert(-b2 <= nmul(x2, s2)[k] <= b2); }
    assert forall|k: int| 0 <= k < r2.len() implies -B <= #[trigger] r2[k] <= B by { assert(-X <= x0[k] <= X); assert(-b1 <= nmul(x1, s)[k] <= b1); }
}
/// 1 + n S + n^2 S^2, an upper bound of the sizes of 1, s and s^2 together
pub open spec fn phase_gain(n: int, S: int) -> int { 1 + n * S + n * (n * (S * S)) }
// ------------------------------------------------------------------ phases
/// integer polynomials with equal values at all points agree modulo the product
proof fn lemma_zev_unique(c: RqContext, u: Seq<int>, v: Seq<int>, k: int)
    requires ctx_wf(c), u.len() == c.degree, v.len() == c.degree, 0 <= k < c.degree, forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] zev(c, u, i, k), zev(c, v, i, k), cq(c, i)),
    ensures cong(u[k], v[k], c.rns.product.v() as int), c.rns.product.v() > 0,
{
    let R = *c.rns; let s = R.moduli_u64@; let x = Seq::new(s.len(), |i: int| (u[k] % (s[i] as int)) as u64); lemma_ctx(c, 0); lemma_cq_pos(c); let n = c.degree as nat;
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] as int == u[k] % (s[i] as int) && x[i] as int == v[k] % (s[i] as int) by {
        let q = cq(c, i); lemma_ctx(c, i); let a = modseq(u, q); let b = modseq(v, q); let o = c.ntt_ops@[i];
        assert forall|j: int| 0 <= j < n implies #[trigger] a[j] < q && a[j] as int == u[j] % q by { lemma_mod_range(u[j], q); }
        assert forall|j: int| 0 <= j < n implies #[trigger] b[j] < q && b[j] as int == v[j] % q by { lemma_mod_range(v[j], q); }
        assert forall|t: int| 0 <= t < o.size implies cong(bev(ints(a), 0, o.size as nat, #[trigger] npt(o, t)), bev(ints(b), 0, o.size as nat, npt(o, t)), o.p.p as int) by {
            lemma_zev_mod(c, u, i, t); lemma_zev_mod(c, v, i, t); assert(cong(zev(c, u, i, t), zev(c, v, i, t), q)); }
        lemma_eval_inj(o, a, b); lemma_mod_range(u[k], q); lemma_mod_range(v[k], q); assert(a[k] == b[k]); }
    lemma_rns_unique(R, x, u[k]); lemma_rns_unique(R, x, v[k]);
}
proof fn lemma_zev_mod(c: RqContext, u: Seq<int>, i: int, k: int) requires ctx_wf(c), u.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, ensures cong(bev(ints(modseq(u, cq(c, i))), 0, c.degree as nat, npt(c.ntt_ops@[i], k)), zev(c, u, i, k), cq(c, i)),
{
    let q = cq(c, i); lemma_ctx(c, i); let m = modseq(u, q); let n = c.degree as nat; let x = npt(c.ntt_ops@[i], k);
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] ints(m)[0 + j], u[0 + j], q) by { lemma_mod_range(u[j], q); lemma_mod_twice(u[j], q); assert(m[j] as int == u[j] % q); }
    lemma_bev_cong(ints(m), u, 0, n, x, x, q);
}
/// the phase at every point
proof fn lemma_phase_at(ct: BfvCipherText, s: Poly, w: Seq<int>, i: int, k: int) requires has_phase(ct, s, w), bct_wf(ct), ctx_wf(bctx(ct)), 0 <= i < ctx_n(bctx(ct)), 0 <= k < bctx(ct).degree,
    ensures cong(phs(ct.cts@, s, i, k, ct.cts.len() as nat), zev(bctx(ct), w, i, k), cq(bctx(ct), i)),
{
    let c = bctx(ct); let q = cq(c, i); lemma_ctx(c, i); let o = c.ntt_ops@[i]; lemma_zev_mod(c, w, i, k); let y = ph_row(ct, s, i); let P = phs(ct.cts@, s, i, k, ct.cts.len() as nat); lemma_mod_range(P, q);
    assert(fwd_post(o, modseq(w, q), y)); assert(y[k] as int == P % q);
    assert(y[k] as int == bev(ints(modseq(w, q)), 0, o.size as nat, npt(o, k)) % (o.p.p as int));
}
/// ... and back
pub proof fn lemma_phase_from(ct: BfvCipherText, s: Poly, w: Seq<int>)
    requires bct_wf(ct), ctx_wf(bctx(ct)), w.len() == bctx(ct).degree, forall|i: int, k: int| 0 <= i < ctx_n(bctx(ct)) && 0 <= k < bctx(ct).degree ==> cong(#[trigger] phs(ct.cts@, s, i, k, ct.cts.len() as nat), zev(bctx(ct), w, i, k), cq(bctx(ct), i)), ensures has_phase(ct, s, w),
{
    let c = bctx(ct);
    assert forall|i: int| 0 <= i < ctx_n(c) implies fwd_post(#[trigger] c.ntt_ops@[i], modseq(w, cq(c, i)), ph_row(ct, s, i)) by {
        lemma_ctx(c, i); let q = cq(c, i); let o = c.ntt_ops@[i]; let y = ph_row(ct, s, i); let m = modseq(w, q);
        assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]) < o.p.p && y[k] as int == bev(ints(m), 0, o.size as nat, npt(o, k)) % (o.p.p as int) by {
            let P = phs(ct.cts@, s, i, k, ct.cts.len() as nat); lemma_mod_range(P, q); lemma_zev_mod(c, w, i, k); assert(cong(P, zev(c, w, i, k), q)); }
    }
}
/// value of x0 + x1 s + x2 s^2 at a point
proof fn lemma_zph3_ev(c: RqContext, x0: Seq<int>, x1: Seq<int>, x2: Seq<int>, s: Seq<int>, i: int, k: int)
    requires ctx_wf(c), 0 <= i < ctx_n(c), 0 <= k < c.degree, x0.len() == c.degree, x1.len() == c.degree, x2.len() == c.degree, s.len() == c.degree,
    ensures cong(zev(c, zph2(x0, x1, s), i, k), zev(c, x0, i, k) + zev(c, x1, i, k) * zev(c, s, i, k), cq(c, i)),
      cong(zev(c, zph3(x0, x1, x2, s), i, k), zev(c, x0, i, k) + zev(c, x1, i, k) * zev(c, s, i, k) + zev(c, x2, i, k) * (zev(c, s, i, k) * zev(c, s, i, k)), cq(c, i)),
{
    let q = cq(c, i); lemma_ctx(c, i); let a = nmul(x1, s); let ss = nmul(s, s); let b = nmul(x2, ss); let h = zadd(x0, a); let e0 = zev(c, x0, i, k); let e1 = zev(c, x1, i, k); let e2 = zev(c, x2, i, k); let E = zev(c, s, i, k);
    lemma_zmul(c, x1, s, i, k); lemma_zadd(c, x0, a, i, k); lemma_cong_add(e0, e0, zev(c, a, i, k), e1 * E, q);
    lemma_zmul(c, s, s, i, k); lemma_zmul(c, x2, ss, i, k); lemma_cong_mul(e2, e2, zev(c, ss, i, k), E * E, q); lemma_zadd(c, h, b, i, k); lemma_cong_add(zev(c, h, i, k), e0 + e1 * E, zev(c, b, i, k), e2 * (E * E), q);
}
proof fn lemma_phs23(cs: Seq<Poly>, s: Poly, i: int, k: int)
    ensures cs.len() >= 2 ==> phs(cs, s, i, k, 2) == pc(cs[0], i, k) + pc(cs[1], i, k) * pc(s, i, k), cs.len() >= 3 ==> phs(cs, s, i, k, 3) == pc(cs[0], i, k) + pc(cs[1], i, k) * pc(s, i, k) + pc(cs[2], i, k) * (pc(s, i, k) * pc(s, i, k)),
{ let S = pc(s, i, k); reveal_with_fuel(phs, 4); lemma_pow0(S); lemma_pow1(S); lemma_square_is_pow2(S); if cs.len() >= 2 { assert(pc(cs[0], i, k) * 1 == pc(cs[0], i, k)); } }
/// components that stand for x0, x1 (x2): the phase is that of x0 + x1 s (+ x2 s^2)
proof fn lemma_phase_z(cs: Seq<Poly>, C: Arc<RqContext>, s: Poly, z: Seq<int>, xs: Seq<Seq<int>>, i: int, k: int)
    requires ctx_wf(*C), row_wf(s, C), forall|j: int| 0 <= j < cs.len() ==> row_wf(#[trigger] cs[j], C), den_int(s, z), xs.len() == cs.len(), xs.len() == 2 || xs.len() == 3, forall|j: int| 0 <= j < xs.len() ==> den_int(cs[j], #[trigger] xs[j]), 0 <= i < ctx_n(*C), 0 <= k < C.degree,
    ensures xs.len() == 2 ==> cong(phs(cs, s, i, k, 2), zev(*C, zph2(xs[0], xs[1], z), i, k), cq(*C, i)), xs.len() == 3 ==> cong(phs(cs, s, i, k, 3), zev(*C, zph3(xs[0], xs[1], xs[2], z), i, k), cq(*C, i)),
{
    let c = arcv(C); let q = cq(c, i); lemma_ctx(c, i); lemma_phs23(cs, s, i, k); let S = pc(s, i, k); let E = zev(c, z, i, k); lemma_den_ev(s, z, i, k); lemma_mod_twice(E, q);
    assert(den_int(cs[0], xs[0]) && den_int(cs[1], xs[1])); assert(row_wf(cs[0], C) && row_wf(cs[1], C));
    lemma_den_ev(cs[0], xs[0], i, k); lemma_den_ev(cs[1], xs[1], i, k); let e0 = zev(c, xs[0], i, k); let e1 = zev(c, xs[1], i, k); lemma_mod_twice(e0, q); lemma_mod_twice(e1, q);
    lemma_cong_mul(pc(cs[1], i, k), e1, S, E, q); lemma_cong_add(pc(cs[0], i, k), e0, pc(cs[1], i, k) * S, e1 * E, q);
    if xs.len() == 3 { assert(den_int(cs[2], xs[2])); assert(row_wf(cs[2], C)); lemma_den_ev(cs[2], xs[2], i, k); let e2 = zev(c, xs[2], i, k); lemma_mod_twice(e2, q); lemma_cong_mul(S, E, S, E, q); lemma_cong_mul(pc(cs[2], i, k), e2, S * S, E * E, q);
        lemma_cong_add(pc(cs[0], i, k) + pc(cs[1], i, k) * S, e0 + e1 * E, pc(cs[2], i, k) * (S * S), e2 * (E * E), q); lemma_zph3_ev(c, xs[0], xs[1], xs[2], z, i, k); }
    else { lemma_zph3_ev(c, xs[0], xs[1], xs[0], z, i, k); }
}
// ------------------------------------------------------------------ the noise of a product
/// size of the message plus t times the wrap-around of a phase
pub open spec fn wrap_size(n: int, t: int, S: int) -> int { t * phase_gain(n, S) + 1 }
/// t times the noise of the product of ciphertexts with t times their noises at most Fa, Fb and secret at most S
pub open spec fn mul_noise(n: int, t: int, S: int, Fa: int, Fb: int) -> int { n * (wrap_size(n, t, S) * (Fa + Fb)) + n * Fb + t * phase_gain(n, S) }
/// W = w + Q k with t w = Q m + f: t W = Q (m + t k) + f
proof fn lemma_wrap(c: RqContext, t: int, W: Seq<int>, w: Seq<int>, m: Seq<int>, S: int, F: int) -> (res: (Seq<int>, Seq<int>, Seq<int>))
    requires ctx_wf(c), W.len() == c.degree, w.len() == c.degree, m.len() == c.degree, t >= 2, S >= 0, bounded(W, c.rns.product.v() * phase_gain(c.degree as int, S)), forall|k: int| 0 <= k < w.len() ==> cong(#[trigger] W[k], w[k], c.rns.product.v() as int), c.rns.product.v() > 0,
      0 <= F <= c.rns.product.v(), forall|k: int| 0 <= k < w.len() ==> -F <= t * #[trigger] w[k] - c.rns.product.v() * m[k] <= F,
    ensures ({ let Q = c.rns.product.v() as int; let n = c.degree as int; res.0.len() == n && res.1.len() == n && res.2.len() == n && bounded(res.0, wrap_size(n, t, S)) && bounded(res.1, F) && res.0 == zadd(m, zscale(res.2, t)) && zscale(W, t) == zadd(zscale(res.0, Q), res.1) }),
{
    let Q = c.rns.product.v() as int; let n = c.degree as nat; let K = Seq::new(n, |k: int| (W[k] - w[k]) / Q); let M = zadd(m, zscale(K, t)); let f = Seq::new(n, |k: int| t * w[k] - Q * m[k]); let g = phase_gain(n as int, S); let B = wrap_size(n as int, t, S);
    assert forall|k: int| 0 <= k < n implies #[trigger] W[k] == w[k] + Q * K[k] && t * W[k] == Q * M[k] + f[k] && -B <= M[k] <= B by {
        let j = lemma_cong_elim(W[k], w[k], Q); lemma_div_split(j, 0, Q); lemma_basic_div(0, Q); assert(W[k] - w[k] == j * Q); assert(Q * j == j * Q) by(nonlinear_arith); assert(K[k] == j);
        let x = W[k]; let y = w[k]; let mk = m[k]; let Mk = M[k]; let ff = f[k];
        assert(t * x == Q * Mk + ff) by(nonlinear_arith) requires x == y + Q * j, Mk == mk + t * j, ff == t * y - Q * mk;
        assert(-F <= t * w[k] - Q * m[k] <= F); assert(-(Q * g) <= W[k] <= Q * g);
        assert(-(t * (Q * g)) <= t * x <= t * (Q * g)) by(nonlinear_arith) requires -(Q * g) <= x <= Q * g, t >= 2;
        assert(t * (Q * g) == Q * (t * g)) by(nonlinear_arith);
        assert(-B <= Mk <= B) by(nonlinear_arith) requires -(Q * (t * g)) - Q <= Q * Mk, Q * Mk <= Q * (t * g) + Q, Q > 0, B == t * g + 1;
    }
    assert forall|k: int| 0 <= k < n implies -B <= #[trigger] M[k] <= B by { assert(W[k] == w[k] + Q * K[k]); }
    assert forall|k: int| 0 <= k < n implies #[trigger] zscale(W, t)[k] == zadd(zscale(M, Q), f)[k] by { assert(W[k] == w[k] + Q * K[k]); }
    assert(zscale(W, t) =~= zadd(zscale(M, Q), f));
    assert forall|k: int| 0 <= k < n implies -F <= #[trigger] f[k] <= F by { assert(-F <= t * w[k] - Q * m[k] <= F); }
    (M, f, K)
}
/// (t Wa)(t Wb) expanded
proof fn lemma_expand(Q: int, t: int, Wa: Seq<int>, Wb: Seq<int>, Ma: Seq<int>, Mb: Seq<int>, fa: Seq<int>, fb: Seq<int>, k: int)
    requires Wa.len() == Wb.len() == Ma.len(), Ma.len() == Mb.len() == fa.len(), fa.len() == fb.len(), 0 <= k < Wa.len(), zscale(Wa, t) == zadd(zscale(Ma, Q), fa), zscale(Wb, t) == zadd(zscale(Mb, Q), fb),
    ensures t * (t * nmul(Wa, Wb)[k]) == Q * (Q * nmul(Ma, Mb)[k]) + Q * (nmul(Ma, fb)[k] + nmul(fa, Mb)[k]) + nmul(fa, fb)[k],
{
    let P = nmul(Wa, Wb); let tb = zscale(Wb, t); lemma_nmul_scale_l(Wa, t, tb); lemma_nmul_scale_r(Wa, Wb, t);
    let a = zscale(Ma, Q); let b = zscale(Mb, Q); lemma_nmul_add_l(a, fa, tb); lemma_nmul_add_r(a, b, fb); lemma_nmul_add_r(fa, b, fb);
    lemma_nmul_scale_l(Ma, Q, b); lemma_nmul_scale_r(Ma, Mb, Q); lemma_nmul_scale_l(Ma, Q, fb); lemma_nmul_scale_r(fa, Mb, Q);
    let L = nmul(zscale(Wa, t), tb); assert(L == zscale(zscale(P, t), t)); assert(L[k] == t * (t * P[k]));
    let G = nmul(Ma, Mb); let H1 = nmul(Ma, fb); let H2 = nmul(fa, Mb); let J = nmul(fa, fb);
    assert(L == zadd(zadd(zscale(zscale(G, Q), Q), zscale(H1, Q)), zadd(zscale(H2, Q), J)));
    assert(L[k] == (Q * (Q * G[k]) + Q * H1[k]) + (Q * H2[k] + J[k])); let h1 = H1[k]; let h2 = H2[k]; assert(Q * h1 + Q * h2 == Q * (h1 + h2)) by(nonlinear_arith);
}
/// t times the phase of the product is Q times the product of the messages plus bounded noise
proof fn lemma_mul_noise(Q: int, t: int, S: int, Fa: int, Fb: int, Wa: Seq<int>, Wb: Seq<int>, Ma: Seq<int>, Mb: Seq<int>, fa: Seq<int>, fb: Seq<int>, R: Seq<int>, Wr: Seq<int>)
    requires Wa.len() == Wb.len() == Ma.len(), Ma.len() == Mb.len() == fa.len(), fa.len() == fb.len(), R.len() == Wa.len(), Wr.len() == Wa.len(), Wa.len() > 0, Q > 0, t >= 2, S >= 0, 0 <= Fa <= Q, 0 <= Fb,
      zscale(Wa, t) == zadd(zscale(Ma, Q), fa), zscale(Wb, t) == zadd(zscale(Mb, Q), fb), zscale(Wr, Q) == zadd(zscale(nmul(Wa, Wb), t), R),
      ({ let n = Wa.len() as int; let B = wrap_size(n, t, S); bounded(Ma, B) && bounded(Mb, B) && bounded(fa, Fa) && bounded(fb, Fb) && bounded(R, Q * phase_gain(n, S)) }),
    ensures forall|k: int| 0 <= k < Wa.len() ==> -mul_noise(Wa.len() as int, t, S, Fa, Fb) <= t * #[trigger] Wr[k] - Q * nmul(Ma, Mb)[k] <= mul_noise(Wa.len() as int, t, S, Fa, Fb), wrap_size(Wa.len() as int, t, S) >= 0,
{
    let n = Wa.len() as int; let B = wrap_size(n, t, S); let g = phase_gain(n, S); let N = mul_noise(n, t, S, Fa, Fb);
    assert(g >= 1) by { let y = S * S; assert(y >= 0) by(nonlinear_arith) requires y == S * S; let z = n * y; assert(z >= 0) by(nonlinear_arith) requires z == n * y, n >= 0, y >= 0; let v = n * z; assert(v >= 0) by(nonlinear_arith) requires v == n * z, n >= 0, z >= 0; let u = n * S; assert(u >= 0) by(nonlinear_arith) requires u == n * S, n >= 0, S >= 0; }
    assert(B >= 0) by { assert(t * g >= 0) by(nonlinear_arith) requires t >= 2, g >= 1; }
    lemma_nmul_norm(Ma, fb, B, Fb); lemma_nmul_norm(fa, Mb, Fa, B); lemma_nmul_norm(fa, fb, Fa, Fb);
    assert forall|k: int| 0 <= k < n implies -N <= t * #[trigger] Wr[k] - Q * nmul(Ma, Mb)[k] <= N by {
        lemma_expand(Q, t, Wa, Wb, Ma, Mb, fa, fb, k); let P = nmul(Wa, Wb)[k]; let G = nmul(Ma, Mb)[k]; let h1 = nmul(Ma, fb)[k]; let h2 = nmul(fa, Mb)[k]; let J = nmul(fa, fb)[k]; let r = R[k]; let w = Wr[k];
        let PP = nmul(Wa, Wb); assert(PP.len() == n); let tp = zscale(PP, t); assert(tp.len() == n && tp[k] == t * P); assert(zscale(Wr, Q)[k] == Q * w); assert(zadd(tp, R)[k] == tp[k] + R[k]); assert(zscale(Wr, Q)[k] == zadd(tp, R)[k]); assert(Q * w == t * P + r);
        let h = h1 + h2; let F = t * w - Q * G;
        assert(Q * F == Q * h + J + t * r) by(nonlinear_arith) requires F == t * w - Q * G, Q * w == t * P + r, t * (t * P) == Q * (Q * G) + Q * h + J;
        let bh = n * (B * (Fa + Fb)); let bj = n * (Fa * Fb); let br = Q * g;
        assert(-(n * (B * Fb)) <= h1 <= n * (B * Fb)); assert(-(n * (Fa * B)) <= h2 <= n * (Fa * B)); assert(bh == n * (B * Fb) + n * (Fa * B)) by(nonlinear_arith) requires bh == n * (B * (Fa + Fb));
        assert(-bj <= J <= bj); assert(-br <= r <= br);
        assert(bj <= Q * (n * Fb)) by { let y = n * Fb; assert(y >= 0) by(nonlinear_arith) requires y == n * Fb, n >= 0, Fb >= 0; assert(bj == Fa * y) by(nonlinear_arith) requires bj == n * (Fa * Fb), y == n * Fb; assert(Fa * y <= Q * y) by(nonlinear_arith) requires Fa <= Q, y >= 0; }
        assert(-(Q * (t * g)) <= t * r <= Q * (t * g)) by(nonlinear_arith) requires -br <= r <= br, br == Q * g, t >= 2;
        assert(-(Q * bh) <= Q * h <= Q * bh) by(nonlinear_arith) requires -bh <= h <= bh, Q > 0;
        let y = n * Fb; let z = t * g; assert(N == bh + y + z); assert(Q * N == Q * bh + Q * y + Q * z) by(nonlinear_arith) requires N == bh + y + z;
        assert(-(Q * N) <= Q * F <= Q * N); assert(-N <= F <= N) by(nonlinear_arith) requires -(Q * N) <= Q * F, Q * F <= Q * N, Q > 0;
    }
}
/// the product of the messages modulo t
proof fn lemma_msg_mod(ma: Seq<int>, ka: Seq<int>, mb: Seq<int>, kb: Seq<int>, t: int, k: int)
    requires ma.len() == ka.len() == mb.len(), mb.len() == kb.len(), t > 0, 0 <= k < ma.len(), ensures cong(nmul(zadd(ma, zscale(ka, t)), zadd(mb, zscale(kb, t)))[k], nmul(ma, mb)[k], t),
{
    let B = zadd(mb, zscale(kb, t)); lemma_nmul_add_l(ma, zscale(ka, t), B); lemma_nmul_scale_l(ka, t, B); lemma_nmul_add_r(ma, mb, zscale(kb, t)); lemma_nmul_scale_r(ma, kb, t);
    let x = nmul(ma, kb)[k]; let y = nmul(ka, B)[k]; let z = nmul(ma, mb)[k]; assert(z + t * x + t * y == z + (x + y) * t) by(nonlinear_arith); lemma_cong_intro(z + t * x + t * y, z, x + y, t);
}
/// the scaled message of the product, and the phase near it
proof fn lemma_round_msg(Q: int, t: int, m: int, G: int, W: int, N: int) -> (res: (int, int))
    requires Q > 0, t >= 2, m == G % t, -N <= t * W - Q * G <= N, N >= 0,
    ensures ({ let (w, V) = res; msg_ok(Q, t, m, V, Q * m - t * V) && cong(w, W, Q) && t * iabs(w - V) <= N + t && w == W - Q * ((G - m) / t) && V == (Q * m) / t }),
{
    lemma_mod_range(G, t); lemma_mod_twice(G, t); let j = lemma_cong_elim(G, m, t); lemma_div_split(j, 0, t); lemma_basic_div(0, t); assert(G - m == j * t); assert(t * j == j * t) by(nonlinear_arith); assert((G - m) / t == j);
    let w = W - Q * j; let V = (Q * m) / t; lemma_fundamental_div_mod(Q * m, t); lemma_mod_range(Q * m, t); let u = Q * m - t * V; assert(0 <= u < t);
    assert(W == w + j * Q) by(nonlinear_arith) requires w == W - Q * j; lemma_cong_intro(W, w, j, Q);
    assert(t * (w - V) == (t * W - Q * G) + u) by(nonlinear_arith) requires w == W - Q * j, G - m == j * t, u == Q * m - t * V;
    let e = w - V; let te = t * e; assert(t * (-e) == -te) by(nonlinear_arith) requires te == t * e;
    (w, V)
}
/// c0 + c1 s of a well-formed two-component ciphertext, its message and noise
pub open spec fn ct_msg(c: BfvCipherText, s: Poly, w: Seq<int>, m: Seq<u64>, F: int) -> bool {
    let Q = bctx(c).rns.product.v() as int; let t = c.params.plaintext_modulus_u64 as int;
    &&& bct_wf(c) && c.cts.len() == 2 && has_phase(c, s, w) && m.len() == bctx(c).degree && 0 <= F <= Q
    &&& (forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]) < c.params.plaintext_modulus_u64) && (forall|k: int| 0 <= k < w.len() ==> -F <= t * #[trigger] w[k] - Q * m[k] <= F)
}
/// phase of the scaled tensor product: integer polynomial W with t W = Q Ma Mb + noise
proof fn lemma_mul_phase(a: BfvCipherText, b: BfvCipherText, s: Poly, z: Seq<int>, wa: Seq<int>, wb: Seq<int>, ma: Seq<u64>, mb: Seq<u64>, Fa: int, Fb: int, S: int, r: Seq<Poly>, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>) -> (res: (Seq<Seq<int>>, Seq<int>))
    requires mul_rel(a, b, r, us, os, ts), bfv_wf(*a.params), b.params == a.params, b.level == a.level, mul_fits(a), ct_msg(a, s, wa, ma, Fa), ct_msg(b, s, wb, mb, Fb), row_wf(s, a.params.q_ctxs@[a.level as int]), den_int(s, z), bounded(z, S), S >= 0,
    ensures ({ let (ws, G) = res; let c = bctx(a); let n = c.degree as int; let Q = c.rns.product.v() as int; let t = a.params.plaintext_modulus_u64 as int; let W = zph3(ws[0], ws[1], ws[2], z);
      Q > 0 && ws.len() == 3 && r.len() == 3 && (forall|j: int| 0 <= j < 3 ==> den_int(r[j], #[trigger] ws[j]) && ws[j].len() == n) && G.len() == n
      && (forall|k: int| 0 <= k < n ==> cong(#[trigger] G[k], nmul(ints(ma), ints(mb))[k], t)) && (forall|k: int| 0 <= k < n ==> -mul_noise(n, t, S, Fa, Fb) <= t * #[trigger] W[k] - Q * G[k] <= mul_noise(n, t, S, Fa, Fb)) && mul_noise(n, t, S, Fa, Fb) >= 0 }),
{
    let c = bctx(a); let P = arcv(a.params); lemma_level0(P, a.level as int); lemma_ctx(c, 0); let n = c.degree as int; let Q = c.rns.product.v() as int; let t = P.plaintext_modulus_u64 as int; lemma_cq_pos(c);
    let (xs, ys, ws) = lemma_mul_scaled(a, b, r, us, os, ts); let g = phase_gain(n, S); let nn = n as nat;
    assert forall|j: int| 0 <= j < 2 implies (#[trigger] xs[j]).len() == n && bounded(xs[j], Q) by { assert(den_int(a.cts@[j], xs[j])); lemma_small_bounded(xs[j], Q); assert(bounded(xs[j], (3 * Q) / 4)); }
    assert forall|j: int| 0 <= j < 2 implies (#[trigger] ys[j]).len() == n && bounded(ys[j], Q) by { assert(den_int(b.cts@[j], ys[j])); lemma_small_bounded(ys[j], Q); assert(bounded(ys[j], (3 * Q) / 4)); }
    let x0 = xs[0]; let x1 = xs[1]; let y0 = ys[0]; let y1 = ys[1]; let Wa = zph2(x0, x1, z); let Wb = zph2(y0, y1, z);
    lemma_zph3_bound(x0, x1, x0, z, Q, S); lemma_zph3_bound(y0, y1, y0, z, Q, S);
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] Wa[k], wa[k], Q) by {
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] zev(c, Wa, i, k), zev(c, wa, i, k), cq(c, i)) by { lemma_phase_at(a, s, wa, i, k); lemma_phase_z(a.cts@, P.q_ctxs@[a.level as int], s, z, xs, i, k); }
        lemma_zev_unique(c, Wa, wa, k); }
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] Wb[k], wb[k], Q) by {
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] zev(c, Wb, i, k), zev(c, wb, i, k), cq(c, i)) by { lemma_phase_at(b, s, wb, i, k); lemma_phase_z(b.cts@, P.q_ctxs@[a.level as int], s, z, ys, i, k); }
        lemma_zev_unique(c, Wb, wb, k); }
    let (Ma, fa, ka) = lemma_wrap(c, t, Wa, wa, ints(ma), S, Fa); let (Mb, fb, kb) = lemma_wrap(c, t, Wb, wb, ints(mb), S, Fb);
    // the tensor product and its rounding
    let z0 = ztens(xs, ys, 0, nn, 2); let z1 = ztens(xs, ys, 1, nn, 2); let z2 = ztens(xs, ys, 2, nn, 2); lemma_ztens2(xs, ys, nn);
    let (w0, w1, w2) = (ws[0], ws[1], ws[2]); let r0 = rnd(Q, t, w0, z0); let r1 = rnd(Q, t, w1, z1); let r2 = rnd(Q, t, w2, z2);
    assert forall|j: int, k: int| 0 <= j < 3 && 0 <= k < n implies rounds(Q, t, #[trigger] ws[j][k], ztens(xs, ys, j, nn, 2)[k]) by { }
    lemma_rnd(Q, t, w0, z0); lemma_rnd(Q, t, w1, z1); lemma_rnd(Q, t, w2, z2);
    let W = zph3(w0, w1, w2, z); let R = zph3(r0, r1, r2, z); lemma_zph3_bound(r0, r1, r2, z, Q, S);
    lemma_zph3_lin(w0, w1, w2, w0, w1, w2, z, Q); lemma_zph3_lin(z0, z1, z2, z0, z1, z2, z, t); lemma_zph3_lin(zscale(z0, t), zscale(z1, t), zscale(z2, t), r0, r1, r2, z, 1);
    lemma_tensor_product(x0, x1, y0, y1, z);
    assert(zscale(W, Q) == zadd(zscale(nmul(Wa, Wb), t), R));
    lemma_mul_noise(Q, t, S, Fa, Fb, Wa, Wb, Ma, Mb, fa, fb, R, W); let G = nmul(Ma, Mb); let N = mul_noise(n, t, S, Fa, Fb);
    assert(-N <= t * W[0] - Q * G[0] <= N);
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] G[k], nmul(ints(ma), ints(mb))[k], t) by { lemma_msg_mod(ints(ma), ka, ints(mb), kb, t, k); }
    (ws, G)
}
pub open spec fn rnd(Q: int, t: int, w: Seq<int>, z: Seq<int>) -> Seq<int> { Seq::new(w.len(), |k: int| Q * w[k] - t * z[k]) }
proof fn lemma_rnd(Q: int, t: int, w: Seq<int>, z: Seq<int>) requires w.len() == z.len(), Q > 0, forall|k: int| 0 <= k < w.len() ==> rounds(Q, t, #[trigger] w[k], z[k]), ensures bounded(rnd(Q, t, w, z), Q), zscale(w, Q) == zadd(zscale(z, t), rnd(Q, t, w, z)),
{ let r = rnd(Q, t, w, z); assert forall|k: int| 0 <= k < w.len() implies -Q <= #[trigger] r[k] <= Q by { assert(rounds(Q, t, w[k], z[k])); } assert(zscale(w, Q) =~= zadd(zscale(z, t), r)); }
proof fn lemma_ztens2(xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, n: nat) requires xs.len() == 2, ys.len() == 2, xs[0].len() == n, xs[1].len() == n, ys[0].len() == n, ys[1].len() == n,
    ensures ztens(xs, ys, 0, n, 2) == nmul(xs[0], ys[0]), ztens(xs, ys, 1, n, 2) == zadd(nmul(xs[0], ys[1]), nmul(xs[1], ys[0])), ztens(xs, ys, 2, n, 2) == nmul(xs[1], ys[1]),
{
    reveal_with_fuel(ztens, 3);
    assert(ztens(xs, ys, 0, n, 2) =~= nmul(xs[0], ys[0])); assert(ztens(xs, ys, 1, n, 2) =~= zadd(nmul(xs[0], ys[1]), nmul(xs[1], ys[0]))); assert(ztens(xs, ys, 2, n, 2) =~= nmul(xs[1], ys[1]));
}
/// a congruence modulo the product carries over to the values at the points
proof fn lemma_zev_cong_q(c: RqContext, u: Seq<int>, v: Seq<int>, i: int, k: int)
    requires ctx_wf(c), u.len() == c.degree, v.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, forall|j: int| 0 <= j < u.len() ==> cong(#[trigger] u[j], v[j], c.rns.product.v() as int), ensures cong(zev(c, u, i, k), zev(c, v, i, k), cq(c, i)),
{
    let q = cq(c, i); lemma_ctx(c, i); let n = c.degree as nat; let x = npt(c.ntt_ops@[i], k); let Q = c.rns.product.v() as int; lemma_cq_pos(c); lemma_qdiv(c, i); let d = Q / q;
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] u[0 + j], v[0 + j], q) by { assert(cong(u[j], v[j], Q)); let h = lemma_cong_elim(u[j], v[j], Q); assert(h * Q == (h * d) * q) by(nonlinear_arith) requires Q == d * q; lemma_cong_intro(u[j], v[j], h * d, q); }
    lemma_bev_cong(u, v, 0, n, x, x, q);
}
/// a ciphertext whose phase W has t W = Q G + noise up to N decrypts to G modulo t when N is below the threshold
proof fn lemma_dec_product(sk: SecretKey, r: BfvCipherText, s: Poly, s1: Poly, pb: Poly, values: Seq<u64>, W: Seq<int>, G: Seq<int>, ma: Seq<u64>, mb: Seq<u64>, N: int)
    requires bfv_wf(*r.params), bct_wf(r), row_wf(s, r.params.q_ctxs@[r.level as int]), is_sk(s, sk.coeffs@), sk.coeffs@.len() == bctx(r).degree, dec_rel(sk, r, s1, pb, values), 2 * r.params.plaintext_modulus_u64 <= r.params.ciphertext_moduli@[0], s1.context == s.context,
      W.len() == bctx(r).degree, G.len() == bctx(r).degree, ma.len() == bctx(r).degree, mb.len() == bctx(r).degree, N >= 0,
      forall|i: int, k: int| 0 <= i < ctx_n(bctx(r)) && 0 <= k < bctx(r).degree ==> cong(#[trigger] phs(r.cts@, s, i, k, r.cts.len() as nat), zev(bctx(r), W, i, k), cq(bctx(r), i)),
      ({ let Q = bctx(r).rns.product.v() as int; let t = r.params.plaintext_modulus_u64 as int; (forall|k: int| 0 <= k < G.len() ==> cong(#[trigger] G[k], nmul(ints(ma), ints(mb))[k], t)) && (forall|k: int| 0 <= k < G.len() ==> -N <= t * #[trigger] W[k] - Q * G[k] <= N) && 0x4_0000_0000_0000 * (N + 3 * t) < Q * 0x1_ffff_ffff_ffff }),
    ensures values == rmul(ma, mb, r.params.plaintext_modulus_u64 as int),
{
    let c = bctx(r); let P = arcv(r.params); lemma_level0(P, r.level as int); lemma_ctx(c, 0); lemma_cq_pos(c); let n = c.degree as nat; let Q = c.rns.product.v() as int; let t = P.plaintext_modulus_u64 as int; let m = rmul(ma, mb, t); let pm = nmul(ints(ma), ints(mb));
    let w = Seq::new(n, |k: int| W[k] - Q * ((G[k] - m[k]) / t)); let V = Seq::new(n, |k: int| (Q * m[k]) / t);
    assert forall|k: int| 0 <= k < n implies msg_ok(Q, t, m[k] as int, #[trigger] V[k], Q * m[k] - t * V[k]) && cong(W[k], w[k], Q) && below(Q, t, w[k] - V[k]) by {
        lemma_mod_range(pm[k], t); assert(cong(G[k], pm[k], t)); assert(m[k] as int == G[k] % t); assert(-N <= t * W[k] - Q * G[k] <= N); lemma_round_msg(Q, t, m[k] as int, G[k], W[k], N); }
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] W[k], w[k], Q) by { assert(msg_ok(Q, t, m[k] as int, V[k], Q * m[k] - t * V[k])); }
    assert forall|k: int| 0 <= k < n implies below(Q, t, #[trigger] w[k] - V[k]) by { assert(msg_ok(Q, t, m[k] as int, V[k], Q * m[k] - t * V[k])); }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] phs(r.cts@, s, i, k, r.cts.len() as nat), zev(c, w, i, k), cq(c, i)) by { lemma_zev_cong_q(c, W, w, i, k); }
    lemma_phase_from(r, s, w); lemma_decrypt(sk, r, s1, pb, values, s, w, m, V);
}
/// the product of encryptions of ma and mb decrypts to ma mb modulo X^n + 1 and t
pub proof fn lemma_mul_decrypt(sk: SecretKey, a: BfvCipherText, b: BfvCipherText, r: BfvCipherText, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>, s: Poly, wa: Seq<int>, wb: Seq<int>, ma: Seq<u64>, mb: Seq<u64>, Fa: int, Fb: int, S: int, s1: Poly, pb: Poly, values: Seq<u64>)
    requires mul_rel(a, b, r.cts@, us, os, ts), bfv_wf(*a.params), b.params == a.params, b.level == a.level, bct_wf(r), r.params == a.params, r.level == a.level, mul_fits(a), ct_msg(a, s, wa, ma, Fa), ct_msg(b, s, wb, mb, Fb),
      row_wf(s, a.params.q_ctxs@[a.level as int]), is_sk(s, sk.coeffs@), sk.coeffs@.len() == bctx(a).degree, bounded(ints_i(sk.coeffs@), S), S >= 0, dec_rel(sk, r, s1, pb, values), s1.context == s.context, 2 * a.params.plaintext_modulus_u64 <= a.params.ciphertext_moduli@[0],
      ({ let Q = bctx(a).rns.product.v() as int; let t = a.params.plaintext_modulus_u64 as int; 0x4_0000_0000_0000 * (mul_noise(bctx(a).degree as int, t, S, Fa, Fb) + 3 * t) < Q * 0x1_ffff_ffff_ffff }),
    ensures values == rmul(ma, mb, a.params.plaintext_modulus_u64 as int),
{
    let c = bctx(a); let P = arcv(a.params); lemma_level0(P, a.level as int); lemma_ctx(c, 0); let n = c.degree as int; let t = P.plaintext_modulus_u64 as int; let z = ints_i(sk.coeffs@); let C = P.q_ctxs@[a.level as int];
    let (ws, G) = lemma_mul_phase(a, b, s, z, wa, wb, ma, mb, Fa, Fb, S, r.cts@, us, os, ts); let W = zph3(ws[0], ws[1], ws[2], z);
    assert forall|j: int| 0 <= j < 3 implies row_wf(#[trigger] r.cts@[j], C) by { }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] phs(r.cts@, s, i, k, r.cts.len() as nat), zev(c, W, i, k), cq(c, i)) by { lemma_phase_z(r.cts@, C, s, z, ws, i, k); }
    lemma_dec_product(sk, r, s, s1, pb, values, W, G, ma, mb, mul_noise(n, t, S, Fa, Fb));
}
/// ... and so does the relinearised product, with the noise of one key switch added
pub open spec fn relin_noise(c: RqContext, b: int) -> int { ctx_n(c) * (c.degree * (0x4000_0000_0000_0000 * b)) }
pub proof fn lemma_mulr_decrypt(sk: SecretKey, a: BfvCipherText, b: BfvCipherText, r: BfvCipherText, rk: RelinearizationKey, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>, ds: Seq<Poly>, r0: Poly, r1: Poly, s: Poly, s2: Poly, zs: Seq<Seq<int>>, e: int, wa: Seq<int>, wb: Seq<int>, ma: Seq<u64>, mb: Seq<u64>, Fa: int, Fb: int, S: int, s1: Poly, pb: Poly, values: Seq<u64>)
    requires mulr_rel(a, b, rk, r, us, os, ts, ds, r0, r1), bfv_wf(*a.params), b.params == a.params, b.level == a.level, bct_wf(r), r.params == a.params, r.level == a.level, r.cts.len() == 2, mul_fits(a), ct_msg(a, s, wa, ma, Fa), ct_msg(b, s, wb, mb, Fb),
      row_wf(s, a.params.q_ctxs@[a.level as int]), sk.coeffs@.len() == bctx(a).degree, bounded(ints_i(sk.coeffs@), S), S >= 0, dec_rel(sk, r, s1, pb, values), s1.context == s.context, 2 * a.params.plaintext_modulus_u64 <= a.params.ciphertext_moduli@[0],
      relin_enc(rk, s, s2, sk.coeffs@, zs, e), e >= 0, rk.ksk.ct_context == a.params.q_ctxs@[a.level as int],
      ({ let Q = bctx(a).rns.product.v() as int; let t = a.params.plaintext_modulus_u64 as int; 0x4_0000_0000_0000 * (mul_noise(bctx(a).degree as int, t, S, Fa, Fb) + t * relin_noise(bctx(a), e) + 3 * t) < Q * 0x1_ffff_ffff_ffff }),
    ensures values == rmul(ma, mb, a.params.plaintext_modulus_u64 as int),
{
    let c = bctx(a); let P = arcv(a.params); lemma_level0(P, a.level as int); lemma_ctx(c, 0); let n = c.degree as int; let t = P.plaintext_modulus_u64 as int; let Q = c.rns.product.v() as int; let z = ints_i(sk.coeffs@); let C = P.q_ctxs@[a.level as int];
    let (ws, G) = lemma_mul_phase(a, b, s, z, wa, wb, ma, mb, Fa, Fb, S, ds, us, os, ts); let W = zph3(ws[0], ws[1], ws[2], z); let N = mul_noise(n, t, S, Fa, Fb); let E = relin_noise(c, e);
    let down = P.mul_params@[a.level as int].down_scalar;
    assert forall|j: int| 0 <= j < 3 implies row_wf(#[trigger] ds[j], C) by { assert(scaled(down, ts[j], ds[j])); }
    assert(row_wf(ds[2], C)); lemma_relin(rk, s, s2, sk.coeffs@, zs, e, ds[2], r0, r1);
    let err = choose|err: Seq<int>| #[trigger] bounded(err, ctx_n(c) * (c.degree * (0x4000_0000_0000_0000 * e))) && err.len() == c.degree && forall|i: int, j: int| 0 <= i < ctx_n(c) && 0 <= j < c.degree ==> cong(#[trigger] pc(r0, i, j) + pc(r1, i, j) * pc(s, i, j), zev(c, err, i, j) + pc(ds[2], i, j) * pow(pc(s, i, j), 2), cq(c, i));
    let W2 = zadd(W, err);
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] phs(r.cts@, s, i, k, r.cts.len() as nat), zev(c, W2, i, k), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); lemma_phase_z(ds, C, s, z, ws, i, k); lemma_phs23(ds, s, i, k); lemma_phs23(r.cts@, s, i, k); lemma_zadd(c, W, err, i, k); let Y = pc(s, i, k); lemma_square_is_pow2(Y); let p3 = phs(ds, s, i, k, 3);
        let a0 = pc(ds[0], i, k); let a1 = pc(ds[1], i, k); let a2 = pc(ds[2], i, k); let b0 = pc(r0, i, k); let b1 = pc(r1, i, k);
        assert(cong(b0 + b1 * Y, zev(c, err, i, k) + a2 * pow(Y, 2), q));
        assert(bc(r, 0, i, k) == (a0 + b0) % q && bc(r, 1, i, k) == (a1 + b1) % q); lemma_mod_twice(a0 + b0, q); lemma_mod_twice(a1 + b1, q);
        lemma_cong_mul(bc(r, 1, i, k), a1 + b1, Y, Y, q); lemma_cong_add(bc(r, 0, i, k), a0 + b0, bc(r, 1, i, k) * Y, (a1 + b1) * Y, q); assert((a1 + b1) * Y == a1 * Y + b1 * Y) by(nonlinear_arith);
        lemma_cong_add(a0 + a1 * Y, a0 + a1 * Y, b0 + b1 * Y, zev(c, err, i, k) + a2 * (Y * Y), q); assert((a0 + a1 * Y) + (zev(c, err, i, k) + a2 * (Y * Y)) == p3 + zev(c, err, i, k));
        lemma_cong_add(p3, zev(c, W, i, k), zev(c, err, i, k), zev(c, err, i, k), q); }
    assert forall|k: int| 0 <= k < n implies -(N + t * E) <= t * #[trigger] W2[k] - Q * G[k] <= N + t * E by { let x = err[k]; assert(-E <= err[k] <= E); assert(-(t * E) <= t * x <= t * E) by(nonlinear_arith) requires -E <= x <= E, t >= 2; let y = W[k]; assert(-N <= t * W[k] - Q * G[k] <= N); assert(t * (y + x) == t * y + t * x) by(nonlinear_arith); }
    assert(-E <= err[0] <= E); assert(t * E >= 0) by(nonlinear_arith) requires E >= 0, t >= 2;
    lemma_dec_product(sk, r, s, s1, pb, values, W2, G, ma, mb, N + t * E);
}
