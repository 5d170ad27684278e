// Ciphertext multiplication: scaled tensor product.
/// r is p scaled by s, in evaluation form
pub open spec fn scaled(s: RqScaler, p: Poly, r: Poly) -> bool { row_wf(r, s.to) && (exists|pb: Poly| #[trigger] rqs_src(p, pb)) && forall|pb: Poly, i: int| rqs_src(p, pb) && 0 <= i < ctx_n(*s.to) ==> #[trigger] denotes(r, i, rqs_row(s, pb, i)) }
/// coefficient c of the product of the sequences, rows below x only, at evaluation point (i, k)
pub open spec fn tens(us: Seq<Poly>, os: Seq<Poly>, c: int, i: int, k: int, x: nat) -> int decreases x {
    if x == 0 { 0 } else { tens(us, os, c, i, k, (x - 1) as nat) + tterm(us, os, c, i, k, x - 1, os.len() as int) }
}
pub open spec fn tterm(us: Seq<Poly>, os: Seq<Poly>, c: int, i: int, k: int, x: int, j: int) -> int { if 0 <= c - x < j { pc(us[x], i, k) * pc(os[c - x], i, k) } else { 0 } }
/// us, os: the scaled-up operands; ts: their tensor product; r: ts scaled down
pub open spec fn mul_rel(a: BfvCipherText, b: BfvCipherText, r: Seq<Poly>, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>) -> bool {
    let m = a.params.mul_params@[a.level as int]; let e = *m.to;
    &&& us.len() == a.cts.len() && os.len() == b.cts.len() && ts.len() == us.len() + os.len() - 1 && r.len() == ts.len()
    &&& (forall|j: int| 0 <= j < us.len() ==> #[trigger] scaled(m.up_scaler, a.cts@[j], us[j]))
    &&& (forall|j: int| 0 <= j < os.len() ==> #[trigger] scaled(m.up_scaler, b.cts@[j], os[j]))
    &&& (forall|c: int| 0 <= c < ts.len() ==> #[trigger] row_wf(ts[c], m.to))
    &&& (forall|c: int, i: int, k: int| 0 <= c < ts.len() && 0 <= i < ctx_n(e) && 0 <= k < e.degree ==> #[trigger] pc(ts[c], i, k) == tens(us, os, c, i, k, us.len()) % cq(e, i))
    &&& (forall|c: int| 0 <= c < ts.len() ==> #[trigger] scaled(m.down_scalar, ts[c], r[c]))
}
pub proof fn lemma_tens_step(x: int, T: int, u: int, o: int, p: int, y: int, q: int) requires q > 0, x == T % q, p == (u * o) % q, y == (x + p) % q, ensures y == (T + u * o) % q,
{ lemma_mod_twice(T, q); lemma_mod_twice(u * o, q); lemma_cong_add(x, T, p, u * o, q); }
pub proof fn lemma_tens2(us: Seq<Poly>, os: Seq<Poly>, c: int, i: int, k: int) requires us.len() == 2, os.len() == 2, 0 <= c < 3,
    ensures tens(us, os, c, i, k, 2) == (if c == 0 { pc(us[0], i, k) * pc(os[0], i, k) } else if c == 1 { pc(us[0], i, k) * pc(os[1], i, k) + pc(us[1], i, k) * pc(os[0], i, k) } else { pc(us[1], i, k) * pc(os[1], i, k) }),
{ assert(tens(us, os, c, i, k, 1) == tens(us, os, c, i, k, 0) + tterm(us, os, c, i, k, 0, 2)); assert(tens(us, os, c, i, k, 2) == tens(us, os, c, i, k, 1) + tterm(us, os, c, i, k, 1, 2)); }
/// multiplication with relinearisation: the third component of the scaled product is switched and added to the first two
pub open spec fn mulr_rel(a: BfvCipherText, b: BfvCipherText, rk: RelinearizationKey, ret: BfvCipherText, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>, ds: Seq<Poly>, r0: Poly, r1: Poly) -> bool {
    let c = bctx(ret);
    &&& mul_rel(a, b, ds, us, os, ts) && relin_out(rk, ds[2], r0, r1) && row_wf(r0, ret.params.q_ctxs@[ret.level as int]) && row_wf(r1, ret.params.q_ctxs@[ret.level as int])
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(ret, 0, i, k) == (pc(ds[0], i, k) + pc(r0, i, k)) % cq(c, i)
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(ret, 1, i, k) == (pc(ds[1], i, k) + pc(r1, i, k)) % cq(c, i)
}
// ---- accuracy
/// scaling by one keeps the small representative; scaling by num/den rounds it
pub proof fn lemma_scaled(s: RqScaler, p: Poly, r: Poly) -> (res: (Seq<int>, Seq<int>))
    requires rqs_wf(s), row_wf(p, s.from), scaled(s, p, r), ctx_n(*s.from) <= 0x4000,
    ensures ({ let D = sden(s.rns_scaler); let R = sq(s.rns_scaler); den_int(p, res.0) && den_int(r, res.1) && R > 0 && D > 0 && R == s.from.rns.product.v() && forall|k: int| 0 <= k < s.from.degree ==> -(3 * R) <= 4 * (#[trigger] res.0[k]) <= 3 * R && rounds(D, snum(s.rns_scaler), res.1[k], res.0[k]) }),
      snum(s.rns_scaler) == sden(s.rns_scaler) ==> res.0 == res.1,
{
    let pb = choose|pb: Poly| #[trigger] rqs_src(p, pb); let sc = s.rns_scaler; let c = pctx(p); let n = c.degree as nat;
    let X = Seq::new(n, |k: int| scale_x(sc, ints(pcol(pb, k)))); let Z = Seq::new(n, |k: int| rqs_val(s, pb, k)); let R = sq(sc); lemma_ctx(c, 0);
    assert forall|k: int| 0 <= k < n implies -(3 * R) <= 4 * (#[trigger] X[k]) <= 3 * R && rounds(sden(sc), snum(sc), Z[k], X[k]) && X[k] % R == pval(pb, k) && (snum(sc) == sden(sc) ==> X[k] == Z[k]) && R > 0 && sden(sc) > 0 by {
        let r = ints(pcol(pb, k)); lemma_pval(pb, k);
        assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < sc.from.moduli_u64@[i] by { assert(pb.coefficients.rows@[i]@[k] < pb.context.moduli_64@[i]); }
        lemma_scale_bounds(sc, r); lemma_scale_accuracy(sc, r); }
    assert(R > 0 && sden(sc) > 0) by { assert(-(3 * R) <= 4 * X[0]); }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pb.coefficients.rows@[i]@[k] == X[k] % cq(c, i) by {
        lemma_pval(pb, k); lemma_qdiv(c, i); lemma_ctx(c, i); let q = cq(c, i); let w = R / q; let x = X[k]; let j = x / R; lemma_fundamental_div_mod(x, R);
        assert(x == pval(pb, k) + (j * w) * q) by(nonlinear_arith) requires x == R * j + pval(pb, k), R == w * q; lemma_cong_intro(x, pval(pb, k), j * w, q); assert(pc(pb, i, k) == pval(pb, k) % q); }
    lemma_den_red(pb, p, X);
    assert(den_int(r, Z)) by { assert forall|i: int| 0 <= i < ctx_n(*s.to) implies #[trigger] denotes(r, i, modseq(Z, cq(*s.to, i))) by { assert(denotes(r, i, rqs_row(s, pb, i))); assert(rqs_row(s, pb, i) =~= modseq(Z, cq(*s.to, i))); } }
    if snum(sc) == sden(sc) { assert(X =~= Z); }
    (X, Z)
}
/// w is num x / den rounded, to within 2^-50 of a unit beyond the half
pub open spec fn rounds(den: int, num: int, w: int, x: int) -> bool { -den <= 2 * (den * w - num * x) && 0x4_0000_0000_0000 * (den * w - num * x) <= den * 0x2_0000_0000_0001 }
/// component c of the tensor product of two sequences of integer polynomials, rows below x, entries below j
pub open spec fn zterm(xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, c: int, n: nat, x: int) -> Seq<int> { if 0 <= c - x < ys.len() { nmul(xs[x], ys[c - x]) } else { zzero(n) } }
pub open spec fn ztens(xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, c: int, n: nat, x: nat) -> Seq<int> decreases x { if x == 0 { zzero(n) } else { zadd(ztens(xs, ys, c, n, (x - 1) as nat), zterm(xs, ys, c, n, x - 1)) } }
proof fn lemma_ztens_ev(e: RqContext, us: Seq<Poly>, os: Seq<Poly>, xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, c: int, i: int, k: int, x: nat)
    requires ctx_wf(e), 0 <= i < ctx_n(e), 0 <= k < e.degree, x <= us.len(), us.len() == xs.len(), os.len() == ys.len(),
      forall|j: int| 0 <= j < xs.len() ==> poly_wf(#[trigger] us[j]) && *us[j].context == e && us[j].representation == Representation::Ntt && den_int(us[j], xs[j]),
      forall|j: int| 0 <= j < ys.len() ==> poly_wf(#[trigger] os[j]) && *os[j].context == e && os[j].representation == Representation::Ntt && den_int(os[j], ys[j]),
    ensures cong(tens(us, os, c, i, k, x), zev(e, ztens(xs, ys, c, e.degree as nat, x), i, k), cq(e, i)), ztens(xs, ys, c, e.degree as nat, x).len() == e.degree, decreases x,
{
    let q = cq(e, i); let n = e.degree as nat; lemma_ctx(e, i);
    if x == 0 { lemma_zzero(e, i, k); }
    else {
        let h = (x - 1) as nat; lemma_ztens_ev(e, us, os, xs, ys, c, i, k, h); let z0 = ztens(xs, ys, c, n, h); let j = c - h;
        let z1 = zterm(xs, ys, c, n, h as int);
        if 0 <= j < ys.len() {
            assert(us[h as int].context.degree == n); assert(os[j].context.degree == n); let X = xs[h as int]; let Y = ys[j]; let u = zev(e, X, i, k); let v = zev(e, Y, i, k);
            lemma_den_ev(us[h as int], X, i, k); lemma_den_ev(os[j], Y, i, k); lemma_mod_twice(u, q); lemma_mod_twice(v, q); lemma_cong_mul(pc(us[h as int], i, k), u, pc(os[j], i, k), v, q); lemma_zmul(e, X, Y, i, k);
        } else { lemma_zzero(e, i, k); }
        lemma_zadd(e, z0, z1, i, k);
        let t = tterm(us, os, c, i, k, h as int, os.len() as int);
        assert(cong(t, zev(e, z1, i, k), q));
        lemma_cong_add(tens(us, os, c, i, k, h), zev(e, z0, i, k), t, zev(e, z1, i, k), q);
    }
}
/// a polynomial in evaluation form that takes the values of z is z modulo every modulus
pub proof fn lemma_ev_den(p: Poly, z: Seq<int>)
    requires poly_wf(p), p.representation == Representation::Ntt, z.len() == p.context.degree, forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree ==> cong(#[trigger] pc(p, i, k), zev(*p.context, z, i, k), cq(*p.context, i)), ensures den_int(p, z),
{
    let c = pctx(p);
    assert forall|i: int| 0 <= i < ctx_n(c) implies #[trigger] denotes(p, i, modseq(z, cq(c, i))) by {
        let q = cq(c, i); let m = modseq(z, q); let o = c.ntt_ops@[i]; let n = c.degree as nat; lemma_ctx(c, i); let r = p.coefficients.rows@[i]@;
        assert forall|k: int| 0 <= k < m.len() implies #[trigger] m[k] < q by { lemma_mod_range(z[k], q); }
        assert forall|t: int| 0 <= t < o.size implies (#[trigger] r[t]) < o.p.p && r[t] as int == bev(ints(m), 0, n, npt(o, t)) % (o.p.p as int) by {
            let x = npt(o, t); assert(cong(pc(p, i, t), zev(c, z, i, t), q));
            assert forall|k: int| 0 <= k < n implies cong(#[trigger] ints(m)[0 + k], z[0 + k], q) by { lemma_mod_range(z[k], q); lemma_mod_twice(z[k], q); }
            lemma_bev_cong(ints(m), z, 0, n, x, x, q); assert(p.coefficients.rows@[i]@[t] < p.context.moduli_64@[i]); lemma_small_mod(r[t] as nat, q as nat); } }
}
proof fn lemma_ztens_bound(xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, c: int, n: nat, x: nat, B: int)
    requires x <= xs.len(), forall|j: int| 0 <= j < xs.len() ==> (#[trigger] xs[j]).len() == n && bounded(xs[j], B), forall|j: int| 0 <= j < ys.len() ==> (#[trigger] ys[j]).len() == n && bounded(ys[j], B), B >= 0,
    ensures bounded(ztens(xs, ys, c, n, x), x * (n * (B * B))), ztens(xs, ys, c, n, x).len() == n, decreases x,
{
    let M = n * (B * B); assert(M >= 0) by(nonlinear_arith) requires M == n * (B * B), n >= 0, B >= 0; assert(0 * M == 0);
    if x > 0 {
        let h = (x - 1) as nat; lemma_ztens_bound(xs, ys, c, n, h, B); let z0 = ztens(xs, ys, c, n, h); let j = c - h; let z1 = zterm(xs, ys, c, n, h as int); let z = ztens(xs, ys, c, n, x); assert(x * M == h * M + M) by(nonlinear_arith) requires x == h + 1;
        assert(xs[h as int].len() == n && bounded(xs[h as int], B));
        assert forall|k: int| 0 <= k < n implies -(x * M) <= #[trigger] z[k] <= x * M by { assert(-(h * M) <= z0[k] <= h * M); if 0 <= j < ys.len() { assert(ys[j].len() == n && bounded(ys[j], B)); lemma_nmul_bound(xs[h as int], ys[j], n, k, B, B); } }
    }
}
/// two integer polynomials a polynomial denotes agree modulo the product of the moduli
pub proof fn lemma_den_unique(p: Poly, a: Seq<int>, b: Seq<int>, k: int)
    requires poly_wf(p), p.representation == Representation::Ntt, den_int(p, a), den_int(p, b), 0 <= k < p.context.degree, ensures cong(a[k], b[k], p.context.rns.product.v() as int), p.context.rns.product.v() > 0,
{
    let c = pctx(p); let R = *c.rns; let s = R.moduli_u64@; let x = Seq::new(s.len(), |i: int| (a[k] % (s[i] as int)) as u64); lemma_ctx(c, 0);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] as int == a[k] % (s[i] as int) && x[i] as int == b[k] % (s[i] as int) by {
        let q = cq(c, i); lemma_ctx(c, i); let u = modseq(a, q); let v = modseq(b, q); assert(denotes(p, i, u) && denotes(p, i, v));
        assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < q by { lemma_mod_range(a[j], q); }
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] < q by { lemma_mod_range(b[j], q); }
        lemma_fwd_inj(c.ntt_ops@[i], u, v, p.coefficients.rows@[i]@); lemma_mod_range(a[k], q); lemma_mod_range(b[k], q); assert(u[k] == v[k]); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); } lemma_prodq_pos(s, s.len());
    lemma_rns_unique(R, x, a[k]); lemma_rns_unique(R, x, b[k]);
}
/// the scaled tensor product: integer polynomials xs, ys of the operands, ws of the product
pub open spec fn tensor_scaled(a: BfvCipherText, b: BfvCipherText, r: Seq<Poly>, xs: Seq<Seq<int>>, ys: Seq<Seq<int>>, ws: Seq<Seq<int>>) -> bool {
    let c = bctx(a); let Q = c.rns.product.v() as int; let t = a.params.plaintext_modulus_u64 as int; let n = c.degree as nat;
    &&& xs.len() == a.cts.len() && ys.len() == b.cts.len() && ws.len() == r.len()
    &&& (forall|j: int| 0 <= j < xs.len() ==> den_int(a.cts@[j], #[trigger] xs[j]) && xs[j].len() == n && small(xs[j], Q))
    &&& (forall|j: int| 0 <= j < ys.len() ==> den_int(b.cts@[j], #[trigger] ys[j]) && ys[j].len() == n && small(ys[j], Q))
    &&& (forall|j: int| 0 <= j < ws.len() ==> den_int(r[j], #[trigger] ws[j]) && ws[j].len() == n && ztens(xs, ys, j, n, xs.len()).len() == n)
    &&& (forall|j: int, k: int| 0 <= j < ws.len() && 0 <= k < n ==> rounds(Q, t, #[trigger] ws[j][k], ztens(xs, ys, j, n, xs.len())[k]))
}
/// representatives within 3/4 of the modulus
pub open spec fn small(z: Seq<int>, Q: int) -> bool { forall|k: int| 0 <= k < z.len() ==> -(3 * Q) <= 4 * (#[trigger] z[k]) <= 3 * Q }
proof fn lemma_ups(m: MultiplicationParameters, cts: Seq<Poly>, us: Seq<Poly>, C: Arc<RqContext>, E: Arc<RqContext>, t: int) -> (xs: Seq<Seq<int>>)
    requires mulp_wf(m, C, E, t), ctx_n(*C) <= 0x4000, us.len() == cts.len(), forall|j: int| 0 <= j < us.len() ==> #[trigger] scaled(m.up_scaler, cts[j], us[j]), forall|j: int| 0 <= j < cts.len() ==> row_wf(#[trigger] cts[j], C),
    ensures xs.len() == cts.len(), forall|j: int| 0 <= j < xs.len() ==> den_int(cts[j], #[trigger] xs[j]) && xs[j].len() == C.degree && small(xs[j], C.rns.product.v() as int) && den_int(us[j], xs[j]), decreases cts.len(),
{
    if cts.len() == 0 { Seq::empty() } else {
        let l = cts.len() - 1; assert forall|j: int| 0 <= j < l implies #[trigger] scaled(m.up_scaler, cts.take(l)[j], us.take(l)[j]) by { assert(scaled(m.up_scaler, cts[j], us[j])); }
        let xs = lemma_ups(m, cts.take(l), us.take(l), C, E, t); assert(scaled(m.up_scaler, cts[l], us[l])); assert(row_wf(cts[l], C)); let x = lemma_scaled(m.up_scaler, cts[l], us[l]).0;
        let r = xs.push(x); assert(x.len() == cts[l].context.degree);
        assert forall|j: int| 0 <= j < r.len() implies den_int(cts[j], #[trigger] r[j]) && r[j].len() == C.degree && small(r[j], C.rns.product.v() as int) && den_int(us[j], r[j]) by { if j < l { assert(den_int(cts.take(l)[j], xs[j]) && den_int(us.take(l)[j], xs[j])); } }
        r }
}
proof fn lemma_downs(m: MultiplicationParameters, ts: Seq<Poly>, r: Seq<Poly>, C: Arc<RqContext>, E: Arc<RqContext>, t: int, n: nat, zs: Seq<Seq<int>>) -> (ws: Seq<Seq<int>>)
    requires mulp_wf(m, C, E, t), ctx_n(*E) <= 0x4000, n == E.degree, n == C.degree, ts.len() == r.len() == zs.len(), forall|j: int| 0 <= j < ts.len() ==> #[trigger] scaled(m.down_scalar, ts[j], r[j]), forall|j: int| 0 <= j < ts.len() ==> row_wf(#[trigger] ts[j], E),
      forall|j: int| 0 <= j < zs.len() ==> den_int(ts[j], #[trigger] zs[j]) && zs[j].len() == n, forall|j: int, k: int| 0 <= j < zs.len() && 0 <= k < n ==> -(E.rns.product.v() as int) < 4 * (#[trigger] zs[j][k]) < E.rns.product.v(),
    ensures ws.len() == ts.len(), forall|j: int| 0 <= j < ws.len() ==> den_int(r[j], #[trigger] ws[j]) && ws[j].len() == n, forall|j: int, k: int| 0 <= j < ws.len() && 0 <= k < n ==> rounds(C.rns.product.v() as int, t, #[trigger] ws[j][k], zs[j][k]), decreases ts.len(),
{
    if ts.len() == 0 { Seq::empty() } else {
        let l = ts.len() - 1; assert forall|j: int| 0 <= j < l implies #[trigger] scaled(m.down_scalar, ts.take(l)[j], r.take(l)[j]) by { assert(scaled(m.down_scalar, ts[j], r[j])); }
        assert forall|j: int| 0 <= j < l implies den_int(ts.take(l)[j], #[trigger] zs.take(l)[j]) && zs.take(l)[j].len() == n by { assert(den_int(ts[j], zs[j])); }
        assert forall|j: int, k: int| 0 <= j < l && 0 <= k < n implies -(E.rns.product.v() as int) < 4 * (#[trigger] zs.take(l)[j][k]) < E.rns.product.v() by { assert(4 * zs[j][k] < E.rns.product.v()); }
        let ws = lemma_downs(m, ts.take(l), r.take(l), C, E, t, n, zs.take(l)); assert(scaled(m.down_scalar, ts[l], r[l])); assert(row_wf(ts[l], E)); let p = lemma_scaled(m.down_scalar, ts[l], r[l]); let x = p.0; let w = p.1; let e = E.rns.product.v() as int; let z = zs[l]; assert(den_int(ts[l], zs[l]));
        assert(row_wf(r[l], C));
        assert forall|k: int| 0 <= k < n implies rounds(C.rns.product.v() as int, t, #[trigger] w[k], z[k]) by {
            assert(-(3 * e) <= 4 * x[k] <= 3 * e); assert(-e < 4 * zs[l][k] < e); lemma_den_unique(ts[l], x, z, k); let j = lemma_cong_elim(x[k], z[k], e);
            assert(j == 0) by(nonlinear_arith) requires x[k] - z[k] == j * e || x[k] == z[k] + j * e, -(3 * e) <= 4 * x[k] <= 3 * e, -e < 4 * z[k] < e, e > 0; assert(0 * e == 0); }
        let o = ws.push(w);
        assert forall|j: int| 0 <= j < o.len() implies den_int(r[j], #[trigger] o[j]) && o[j].len() == n by { if j < l { assert(den_int(r.take(l)[j], ws[j])); } }
        assert forall|j: int, k: int| 0 <= j < o.len() && 0 <= k < n implies rounds(C.rns.product.v() as int, t, #[trigger] o[j][k], zs[j][k]) by { if j < l { assert(rounds(C.rns.product.v() as int, t, ws[j][k], zs.take(l)[j][k])); } }
        o }
}
/// ciphertext multiplication computes the scaled tensor product
pub proof fn lemma_mul_scaled(a: BfvCipherText, b: BfvCipherText, r: Seq<Poly>, us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>) -> (res: (Seq<Seq<int>>, Seq<Seq<int>>, Seq<Seq<int>>))
    requires mul_rel(a, b, r, us, os, ts), bct_wf(a), bct_wf(b), bfv_wf(*a.params), b.params == a.params, b.level == a.level, mul_fits(a), ensures tensor_scaled(a, b, r, res.0, res.1, res.2),
{
    let P = arcv(a.params); let l = a.level as int; lemma_level0(P, l); let m = P.mul_params@[l]; let C = P.q_ctxs@[l]; let E = m.to; let c = bctx(a); let e = *E; let n = c.degree as nat; let t = P.plaintext_modulus_u64 as int; let Q = c.rns.product.v() as int; let X = e.rns.product.v() as int;
    assert forall|j: int| 0 <= j < a.cts.len() implies row_wf(#[trigger] a.cts@[j], C) by { }
    assert forall|j: int| 0 <= j < b.cts.len() implies row_wf(#[trigger] b.cts@[j], C) by { }
    let xs = lemma_ups(m, a.cts@, us, C, E, t); let ys = lemma_ups(m, b.cts@, os, C, E, t); let N = xs.len();
    assert forall|j: int| 0 <= j < us.len() implies row_wf(#[trigger] us[j], E) && den_int(us[j], xs[j]) by { assert(scaled(m.up_scaler, a.cts@[j], us[j])); assert(den_int(a.cts@[j], xs[j])); }
    assert forall|j: int| 0 <= j < os.len() implies row_wf(#[trigger] os[j], E) && den_int(os[j], ys[j]) by { assert(scaled(m.up_scaler, b.cts@[j], os[j])); assert(den_int(b.cts@[j], ys[j])); }
    lemma_ctx(c, 0); lemma_ctx(e, 0); lemma_cq_pos(c); lemma_cq_pos(e);
    let B = (3 * Q) / 4;
    assert forall|j: int| 0 <= j < xs.len() implies (#[trigger] xs[j]).len() == n && bounded(xs[j], B) by { assert(den_int(a.cts@[j], xs[j])); lemma_small_bounded(xs[j], Q); }
    assert forall|j: int| 0 <= j < ys.len() implies (#[trigger] ys[j]).len() == n && bounded(ys[j], B) by { assert(den_int(b.cts@[j], ys[j])); lemma_small_bounded(ys[j], Q); }
    let zs = Seq::new(r.len(), |j: int| ztens(xs, ys, j, n, N));
    assert forall|j: int| 0 <= j < zs.len() implies den_int(ts[j], #[trigger] zs[j]) && zs[j].len() == n && bounded(zs[j], N * (n * (B * B))) by {
        assert(row_wf(ts[j], E)); lemma_ztens_bound(xs, ys, j, n, N, B);
        assert forall|i: int, k: int| 0 <= i < ctx_n(e) && 0 <= k < e.degree implies cong(#[trigger] pc(ts[j], i, k), zev(e, zs[j], i, k), cq(e, i)) by { assert(pc(ts[j], i, k) == tens(us, os, j, i, k, us.len()) % cq(e, i)); lemma_ctx(e, i); lemma_mod_twice(tens(us, os, j, i, k, us.len()), cq(e, i)); lemma_ztens_ev(e, us, os, xs, ys, j, i, k, N); }
        lemma_ev_den(ts[j], zs[j]); }
    let M = N * (n * (B * B)); let w = (ctx_n(e) - ctx_n(c)) as nat; let g = pow2(w) as int; lemma_pow2_pos(w); lemma_room(Q, X, N as int, n as int, B, g, pow2(60) as int);
    assert forall|j: int, k: int| 0 <= j < zs.len() && 0 <= k < n implies -X < 4 * (#[trigger] zs[j][k]) < X by { assert(bounded(zs[j], M)); assert(-M <= zs[j][k] <= M); }
    let ws = lemma_downs(m, ts, r, C, E, t, n, zs);
    assert forall|j: int, k: int| 0 <= j < ws.len() && 0 <= k < n implies rounds(Q, t, #[trigger] ws[j][k], ztens(xs, ys, j, n, xs.len())[k]) by { assert(rounds(Q, t, ws[j][k], zs[j][k])); }
    assert forall|j: int| 0 <= j < ws.len() implies den_int(r[j], #[trigger] ws[j]) && ws[j].len() == n && ztens(xs, ys, j, n, xs.len()).len() == n by { assert(den_int(ts[j], zs[j])); }
    (xs, ys, ws)
}
/// the extended basis is large enough for the tensor product: e.g. 2^60 >= 4 * components * degree * 2^(extra moduli)
pub open spec fn mul_fits(a: BfvCipherText) -> bool { let c = bctx(a); let e = *a.params.mul_params@[a.level as int].to; ctx_n(e) <= 0x4000 && ctx_n(e) >= ctx_n(c) && 4 * (a.cts.len() * c.degree) * pow2((ctx_n(e) - ctx_n(c)) as nat) <= pow2(60) }
pub proof fn lemma_cq_pos(c: RqContext) requires ctx_wf(c), ensures c.rns.product.v() > 0, { let s = c.rns.moduli_u64@; lemma_ctx(c, 0); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); } lemma_prodq_pos(s, s.len()); }
pub proof fn lemma_small_bounded(z: Seq<int>, Q: int) requires small(z, Q), Q > 0, ensures bounded(z, (3 * Q) / 4), (3 * Q) / 4 >= 0, { assert forall|k: int| 0 <= k < z.len() implies -((3 * Q) / 4) <= #[trigger] z[k] <= (3 * Q) / 4 by { assert(-(3 * Q) <= 4 * z[k] <= 3 * Q); } }
proof fn lemma_room(Q: int, X: int, N: int, n: int, B: int, g: int, h: int)
    requires Q > 0, N >= 1, n >= 1, B == (3 * Q) / 4, g > 0, X * g >= Q * Q * h, 4 * (N * n) * g <= h, ensures 4 * (N * (n * (B * B))) < X,
{
    let A = B * B; let S = Q * Q; let K = N * n;
    assert(B < Q && B >= 0); assert(A < S) by(nonlinear_arith) requires A == B * B, S == Q * Q, 0 <= B < Q;
    assert(K >= 1) by(nonlinear_arith) requires K == N * n, N >= 1, n >= 1;
    assert(N * (n * A) == K * A) by(nonlinear_arith) requires K == N * n;
    assert(K * A < K * S) by(nonlinear_arith) requires A < S, K >= 1;
    assert(S * (4 * K * g) <= S * h) by(nonlinear_arith) requires 4 * K * g <= h, S > 0; 
    assert(S * (4 * K * g) == (4 * (K * S)) * g) by(nonlinear_arith);
    assert(X >= 4 * (K * S)) by(nonlinear_arith) requires X * g >= S * h, S * h >= (4 * (K * S)) * g, g > 0;
}
