// What the expansion tree computes: leaf j is a phase m[j] plus a bounded error.
pub open spec fn zscale(a: Seq<int>, v: int) -> Seq<int> { Seq::new(a.len(), |k: int| v * a[k]) }
pub open spec fn zconst(n: nat, v: int) -> Seq<int> { Seq::new(n, |k: int| if k == 0 { v } else { 0 }) }
pub proof fn lemma_zscale(c: RqContext, a: Seq<int>, v: int, i: int, k: int)
    requires ctx_wf(c), a.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, ensures cong(zev(c, zscale(a, v), i, k), v * zev(c, a, i, k), cq(c, i)),
{
    let n = c.degree as nat; let x = npt(c.ntt_ops@[i], k); let q = cq(c, i); let s = zscale(a, v); lemma_ctx(c, i);
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] s[0 + j], v * a[0 + j] + 0 * a[0 + j], q) by { assert(0 * a[j] == 0); }
    lemma_bev_lin(s, 0, a, 0, v, 0, 0, n, x, q); assert(0 * bev(a, 0, n, x) == 0);
}
// ------------------------------------------------------------------ the automorphism on coefficients
/// substitution is additive, preserves bounds, and each place holds plus or minus one source coefficient
pub proof fn lemma_sub_lin(a: Seq<int>, b: Seq<int>, r: Seq<int>, e: int, L: nat, j: nat, p: int)
    requires e % 2 == 1, e > 0, a.len() == b.len() == r.len() == pow2(L), j <= pow2(L), 0 <= p < pow2(L), forall|k: int| 0 <= k < a.len() ==> #[trigger] r[k] == a[k] + b[k],
    ensures sub_st(r, e, pow2(L) as int, j)[p] == sub_st(a, e, pow2(L) as int, j)[p] + sub_st(b, e, pow2(L) as int, j)[p], decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_sub_lin(a, b, r, e, L, h, p); lemma_sub_step(a, e, L, h); lemma_sub_step(b, e, L, h); lemma_sub_step(r, e, L, h); assert(r[h as int] == a[h as int] + b[h as int]); }
}
pub proof fn lemma_sub_bound(a: Seq<int>, e: int, L: nat, j: nat, B: int, p: int)
    requires e % 2 == 1, e > 0, a.len() == pow2(L), j <= pow2(L), 0 <= p < pow2(L), bounded(a, B), B >= 0,
    ensures -B <= sub_st(a, e, pow2(L) as int, j)[p] <= B, decreases j,
{ if j > 0 { let h = (j - 1) as nat; lemma_sub_bound(a, e, L, h, B, p); lemma_sub_step(a, e, L, h); assert(-B <= a[h as int] <= B); } }
/// at depth i the multiples of 2^i stay, with the sign of their quotient
pub proof fn lemma_fixed(L: nat, i: nat, a: int)
    requires i < L, L < 61, 0 <= a, a * pow2(i) < pow2(L),
    ensures ({ let n = pow2(L) as int; let e = ek(n, i); let k = a * pow2(i); e % 2 == 1 && e > 0 && (k * e) % n == k && (k * e) / n == a }),
{
    let n = pow2(L) as int; lemma_ek(n, i, L); let H = pow2((L - i) as nat) as int; let W = pow2(i) as int; lemma_pow2_adds(i, (L - i) as nat); let e = ek(n, i); let k = a * W;
    lemma_pow2_unfold((L - i) as nat); lemma_pow2_pos((L - i - 1) as nat); lemma_pow2_pos(i); lemma_pow2_pos(L);
    assert(W * H == n);
    assert(k * e == a * n + k) by(nonlinear_arith) requires W * H == n, e == H + 1, k == a * W;
    assert(k >= 0) by(nonlinear_arith) requires k == a * W, a >= 0, W > 0;
    lemma_div_split(a, k, n); lemma_basic_div(k, n); lemma_small_mod(k as nat, n as nat); lemma_cong_intro(k * e, k, a, n);
}
/// a sequence supported on the multiples of 2^i: place p of its image
pub proof fn lemma_sub_supp(z: Seq<int>, L: nat, i: nat, j: nat, p: int)
    requires i < L, L < 61, z.len() == pow2(L), j <= pow2(L), 0 <= p < pow2(L), p % (pow2(i) as int) != 0, forall|k: int| 0 <= k < z.len() && k % (pow2(i) as int) != 0 ==> #[trigger] z[k] == 0,
    ensures sub_st(z, ek(pow2(L) as int, i), pow2(L) as int, j)[p] == 0, decreases j,
{
    let n = pow2(L) as int; let e = ek(n, i); let W0 = pow2(i) as int; lemma_pow2_pos(i); lemma_pow2_pos(L); assert(0 * W0 == 0); lemma_fixed(L, i, 0);
    if j > 0 { let h = (j - 1) as nat; lemma_sub_supp(z, L, i, h, p); lemma_sub_step(z, e, L, h); let W = pow2(i) as int;
      if h as int % W == 0 { let a = h as int / W; lemma_fundamental_div_mod(h as int, W); assert(a * W == h) by(nonlinear_arith) requires h as int == W * a + 0; assert(a >= 0) by { lemma_div_pos_is_pos(h as int, W); } lemma_fixed(L, i, a); }
      else { assert(z[h as int] == 0); } }
}
/// nmul by -X^{n-2^i} = X^{-2^i}
pub proof fn lemma_xpow_mul(d: Seq<int>, i: nat, j: nat, k: int)
    requires d.len() >= 1, pow2(i) <= d.len(), 0 <= k < d.len(), j <= d.len(),
    ensures nmul_coef(xpow(d.len(), i), d, j, k) == (if j > d.len() - pow2(i) { (if k < d.len() - pow2(i) { d[k + pow2(i)] } else { -d[k - (d.len() - pow2(i))] }) } else { 0 }), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_pow2_pos(i); lemma_xpow_mul(d, i, h, k); let x = xpow(d.len(), i); let r = nrot(d, h as int)[k]; if h == d.len() - pow2(i) { assert(x[h as int] == -1); assert(-1 * r == -r); } else { assert(x[h as int] == 0); assert(0 * r == 0); } }
}
// ------------------------------------------------------------------ messages of the tree
/// message of node j at depth i, where the root has ninv m
pub open spec fn cmsg(m: Seq<int>, ninv: int, i: nat, j: int) -> Seq<int> { Seq::new(m.len(), |k: int| if k % (pow2(i) as int) == 0 && 0 <= k + j < m.len() { pow2(i) * ninv * m[k + j] } else { 0 }) }
/// differences of an expansion: what the two children hold if the parent holds z and the switch adds e1
pub open spec fn ev_msg(z: Seq<int>, e: int, e1: Seq<int>) -> Seq<int> { zadd(z, zadd(nsubst(z, e), e1)) }
pub open spec fn od_msg(z: Seq<int>, e: int, e1: Seq<int>, i: nat) -> Seq<int> { nmul(xpow(z.len(), i), zadd(z, zscale(zadd(nsubst(z, e), e1), -1))) }
pub open spec fn near(z: Seq<int>, m: Seq<int>, b: int) -> bool { z.len() == m.len() && forall|k: int| 0 <= k < z.len() ==> -b <= #[trigger] z[k] - m[k] <= b }
pub proof fn lemma_mult(k: int, W: int, W2: int) requires W > 0, W2 == 2 * W, k >= 0, ensures k % W2 == 0 ==> k % W == 0, k % W == 0 ==> ((k / W) % 2 == 0 <==> k % W2 == 0), k % W2 == 0 ==> (k + W) % W == 0 && ((k + W) / W) % 2 == 1,
    (k + W) % W == k % W,
{
    lemma_fundamental_div_mod(k, W); lemma_fundamental_div_mod(k, W2); let a = k / W; let b = k / W2; lemma_mod_range(k, W); lemma_mod_range(k, W2);
    lemma_div_split(1, k, W); lemma_cong_intro(k + W, k, 1, W); assert(1 * W + k == k + W);
    assert(a * W == W * a && b * W2 == W2 * b) by(nonlinear_arith);
    if k % W2 == 0 { assert(k == 0 + (2 * b) * W) by(nonlinear_arith) requires k == b * W2, W2 == 2 * W; lemma_small_mod(0, W as nat); lemma_cong_intro(k, 0, 2 * b, W); lemma_basic_div(0, W); lemma_div_split(2 * b, 0, W); assert(a == 2 * b); }
    if k % W == 0 && a % 2 == 0 { let h = a / 2; assert(a == 2 * h); assert(k == 0 + h * W2) by(nonlinear_arith) requires k == a * W, a == 2 * h, W2 == 2 * W; lemma_small_mod(0, W2 as nat); lemma_cong_intro(k, 0, h, W2); }
}
/// the parent's message substituted
pub proof fn lemma_sub_cmsg(m: Seq<int>, ninv: int, L: nat, i: nat, j: int, k: int)
    requires i < L, L < 61, m.len() == pow2(L), 0 <= j < pow2(i), 0 <= k < m.len(),
    ensures ({ let c = cmsg(m, ninv, i, j); nsubst(c, ek(pow2(L) as int, i))[k] == (if k % (pow2((i + 1) as nat) as int) == 0 { c[k] } else { -c[k] }) }),
{
    let c = cmsg(m, ninv, i, j); let n = pow2(L) as int; let W = pow2(i) as int; let e = ek(n, i); lemma_pow2_pos(i); lemma_pow2_unfold((i + 1) as nat); lemma_mult(k, W, 2 * W); lemma_pow2_pos(L);
    if k % W == 0 { let a = k / W; lemma_fundamental_div_mod(k, W); assert(a * W == k) by(nonlinear_arith) requires k == W * a + 0; lemma_div_pos_is_pos(k, W); lemma_fixed(L, i, a); lemma_nsubst_at(c, e, L, pow2(L), k); }
    else { lemma_sub_supp(c, L, i, pow2(L), k); }
}
pub proof fn lemma_children(z: Seq<int>, m: Seq<int>, ninv: int, e1: Seq<int>, L: nat, i: nat, j: int, E: int, G: int)
    requires i < L, L < 61, m.len() == pow2(L), 0 <= j < pow2(i), near(z, cmsg(m, ninv, i, j), E), E >= 0, G >= 0, bounded(e1, G), e1.len() == m.len(),
    ensures near(ev_msg(z, ek(pow2(L) as int, i), e1), cmsg(m, ninv, (i + 1) as nat, j), 2 * E + G), near(od_msg(z, ek(pow2(L) as int, i), e1, i), cmsg(m, ninv, (i + 1) as nat, j + pow2(i)), 2 * E + G),
{
    let n = pow2(L) as int; let e = ek(n, i); let c = cmsg(m, ninv, i, j); let W = pow2(i) as int; let W2 = pow2((i + 1) as nat) as int; lemma_pow2_pos(i); lemma_pow2_unfold((i + 1) as nat); lemma_pow2_mono((i + 1) as nat, L); lemma_pow2_pos(L);
    assert(0 * pow2(i) == 0); lemma_fixed(L, i, 0);
    let err = Seq::new(z.len(), |k: int| z[k] - c[k]); assert(bounded(err, E)) by { assert forall|k: int| 0 <= k < err.len() implies -E <= #[trigger] err[k] <= E by { assert(-E <= z[k] - c[k] <= E); } }
    let sz = nsubst(z, e); lemma_sub_len(z, e, n, n as nat); let c1 = cmsg(m, ninv, (i + 1) as nat, j); let c2 = cmsg(m, ninv, (i + 1) as nat, j + W);
    assert(2 * (pow2(i) * ninv) == W2 * ninv) by(nonlinear_arith) requires W2 == 2 * pow2(i);
    // value of sum and difference at k
    assert forall|k: int| 0 <= k < n implies -(2 * E + G) <= #[trigger] ev_msg(z, e, e1)[k] - c1[k] <= 2 * E + G by {
        lemma_sub_lin(c, err, z, e, L, n as nat, k); lemma_sub_bound(err, e, L, n as nat, E, k); lemma_sub_cmsg(m, ninv, L, i, j, k); lemma_mult(k, W, W2); assert(-G <= e1[k] <= G); assert(-E <= err[k] <= E);
        let v = m[k + j]; if k % W2 == 0 { assert(2 * (pow2(i) * ninv * v) == W2 * ninv * v) by(nonlinear_arith) requires 2 * (pow2(i) * ninv) == W2 * ninv; }
        assert(k % W == 0 ==> k + j < n) by { if k % W == 0 { lemma_last_mult(k, L, i); } }
        assert(k % W2 == 0 ==> k + j < n);
    }
    let D = zadd(z, zscale(zadd(sz, e1), -1));
    assert forall|k: int| 0 <= k < n implies -(2 * E + G) <= #[trigger] D[k] - (if k % W2 == 0 { 0 } else { 2 * c[k] }) <= 2 * E + G by {
        lemma_sub_lin(c, err, z, e, L, n as nat, k); lemma_sub_bound(err, e, L, n as nat, E, k); lemma_sub_cmsg(m, ninv, L, i, j, k); assert(-G <= e1[k] <= G); assert(-E <= err[k] <= E); assert(-1 * zadd(sz, e1)[k] == -(sz[k] + e1[k]));
    }
    assert forall|k: int| 0 <= k < n implies -(2 * E + G) <= #[trigger] od_msg(z, e, e1, i)[k] - c2[k] <= 2 * E + G by {
        lemma_xpow_mul(D, i, n as nat, k); lemma_mult(k, W, W2);
        if k < n - W { 
            assert(-(2 * E + G) <= D[k + W] - (if (k + W) % W2 == 0 { 0 } else { 2 * c[k + W] }) <= 2 * E + G);
            lemma_mult(k + W, W, W2); let v = m[k + W + j];
            if k % W2 == 0 { lemma_last_mult(k + W, L, i); assert(2 * (pow2(i) * ninv * v) == W2 * ninv * v) by(nonlinear_arith) requires 2 * (pow2(i) * ninv) == W2 * ninv; }
            else if (k + W) % W2 != 0 && k % W == 0 { assert(false) by { lemma_div_split(1, k, W); assert(1 * W + k == k + W); } }
        } else {
            let u = k - (n - W); assert(-(2 * E + G) <= D[u] - (if u % W2 == 0 { 0 } else { 2 * c[u] }) <= 2 * E + G); lemma_small_mod(u as nat, W as nat); lemma_small_mod(0, W2 as nat);
            if u == 0 { } else { assert(c[u] == 0); }
            if k % W2 == 0 { lemma_last_mult(k, L, (i + 1) as nat); }
        }
    }
}
/// a multiple of 2^i below 2^L leaves room for 2^i
pub proof fn lemma_last_mult(k: int, L: nat, i: nat) requires i <= L, 0 <= k < pow2(L), k % (pow2(i) as int) == 0, ensures k + pow2(i) <= pow2(L),
{
    let W = pow2(i) as int; let H = pow2((L - i) as nat) as int; lemma_pow2_pos(i); lemma_pow2_adds(i, (L - i) as nat); lemma_fundamental_div_mod(k, W); let a = k / W;
    assert(a < H) by(nonlinear_arith) requires W * a < W * H, W > 0; assert(W * a + W <= W * H) by(nonlinear_arith) requires a + 1 <= H, W > 0;
}
// ------------------------------------------------------------------ phases of the tree
/// what one key switch adds at most, per coefficient
pub open spec fn gal_noise(c: RqContext, b: int) -> int { ctx_n(c) * (c.degree * (0x4000_0000_0000_0000 * b)) }
/// near(phase, m): the phase is a polynomial whose coefficients are within b of those of m
pub open spec fn phase_near(ct: BfvCipherText, s: Poly, m: Seq<int>, b: int) -> bool { exists|z: Seq<int>| near(z, m, b) && #[trigger] is_phase(ct, s, z) }
pub proof fn lemma_node(ev: Evaluation, p: Arc<BfvParameters>, c: BfvCipherText, even: BfvCipherText, odd: BfvCipherText, i: nat, s: Poly, cf: Seq<i64>, b: int, z: Seq<int>)
    requires node(ev, p, c, even, odd, i), eval_enc(ev, p, cf, b), b >= 0, bfv_wf(*p), row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), ct2(c, p), ct2(even, p), ct2(odd, p), is_phase(c, s, z), i < clog(*p.q_ctxs@[0]), p.degree == p.q_ctxs@[0].degree,
    ensures exists|e1: Seq<int>| #[trigger] bounded(e1, gal_noise(*p.q_ctxs@[0], b)) && e1.len() == p.degree && is_phase(even, s, ev_msg(z, ek(p.degree as int, i), e1)) && is_phase(odd, s, od_msg(z, ek(p.degree as int, i), e1, i)),
{
    let r = *p.q_ctxs@[0]; let e = ek(p.degree as int, i); lemma_level0(arcv(p), 0); lemma_clog(r, 0);
    let (g, cr, d, r0, x) = choose|g: GaliosKey, cr: BfvCipherText, d: Poly, r0: Poly, x: Poly| #[trigger] node_of(ev, p, c, even, odd, i, g, cr, d, r0, x);
    assert(ev.gk.m().dom().contains(e as usize)); assert(gal_any(g, cf, b));
    let (s1, ss, zs) = choose|s1: Poly, ss: Poly, zs: Seq<Seq<int>>| #[trigger] gal_enc(g, s1, ss, cf, zs, b);
    lemma_two_keys(g.gk, s, s1, cf, ss, zs, b); assert(gal_enc(g, s, ss, cf, zs, b));
    lemma_galois(g, c, cr, d, r0, s, ss, cf, zs, b, z);
    let e1 = choose|err: Seq<int>| bounded(err, gal_noise(r, b)) && #[trigger] is_phase(cr, s, zadd(nsubst(z, e), err)) && err.len() == r.degree;
    let n = r.degree as int; lemma_sub_len(z, e, n, n as nat); let zr = zadd(nsubst(z, e), e1); let D = zadd(z, zscale(zr, -1)); let xz = xpow(n as nat, i);
    assert forall|a: int, k: int| 0 <= a < ctx_n(r) && 0 <= k < r.degree implies cong(#[trigger] ph2(even, s, a, k), zev(r, ev_msg(z, e, e1), a, k), cq(r, a)) && cong(ph2(odd, s, a, k), zev(r, od_msg(z, e, e1, i), a, k), cq(r, a)) by {
        lemma_ctx(r, a); let q = cq(r, a); let S = pc(s, a, k); let Z = zev(r, z, a, k); let R = zev(r, zr, a, k);
        let A0 = bc(c, 0, a, k); let A1 = bc(c, 1, a, k); let B0 = bc(cr, 0, a, k); let B1 = bc(cr, 1, a, k); let X = pc(x, a, k);
        assert(cong(ph2(c, s, a, k), Z, q)); assert(cong(ph2(cr, s, a, k), R, q));
        // even
        lemma_zadd(r, z, zr, a, k); lemma_mod_twice(A0 + B0, q); lemma_mod_twice(A1 + B1, q); lemma_cong_mul(bc(even, 1, a, k), A1 + B1, S, S, q); lemma_cong_add(bc(even, 0, a, k), A0 + B0, bc(even, 1, a, k) * S, (A1 + B1) * S, q);
        lemma_cong_add(A0 + A1 * S, Z, B0 + B1 * S, R, q); assert((A0 + B0) + (A1 + B1) * S == (A0 + A1 * S) + (B0 + B1 * S)) by(nonlinear_arith);
        // odd
        lemma_zscale(r, zr, -1, a, k); lemma_zadd(r, z, zscale(zr, -1), a, k); lemma_zmul(r, xz, D, a, k); lemma_den_ev(x, xz, a, k); let XZ = zev(r, xz, a, k); lemma_mod_twice(XZ, q);
        let DZ = zev(r, D, a, k); lemma_cong_add(Z, Z, zev(r, zscale(zr, -1), a, k), -1 * R, q); assert(cong(DZ, Z - R, q));
        assert(bc(odd, 0, a, k) == (((A0 - B0) % q) * X) % q); assert(bc(odd, 1, a, k) == (((A1 - B1) % q) * X) % q);
        lemma_odd(A0 - B0, A1 - B1, X, S, bc(odd, 0, a, k), bc(odd, 1, a, k), q);
        assert(((A0 - B0) + (A1 - B1) * S) == (A0 + A1 * S) - (B0 + B1 * S)) by(nonlinear_arith);
        lemma_cong_mul(X, XZ, (A0 - B0) + (A1 - B1) * S, DZ, q);
    }
    assert forall|a: int, k: int| 0 <= a < ctx_n(r) && 0 <= k < r.degree implies cong(#[trigger] ph2(odd, s, a, k), zev(r, od_msg(z, e, e1, i), a, k), cq(r, a)) by { assert(cong(ph2(even, s, a, k), zev(r, ev_msg(z, e, e1), a, k), cq(r, a))); }
    assert(bctx(even) == r && bctx(odd) == r);
    assert(is_phase(even, s, ev_msg(z, e, e1))); assert(is_phase(odd, s, od_msg(z, e, e1, i)));
    assert(bounded(e1, gal_noise(r, b)));
}
proof fn lemma_odd(a: int, b: int, x: int, s: int, r0: int, r1: int, q: int) requires q > 0, r0 == ((a % q) * x) % q, r1 == ((b % q) * x) % q, ensures cong(r0 + r1 * s, x * (a + b * s), q),
{
    lemma_mod_twice(a, q); lemma_mod_twice(b, q); lemma_cong_mul(a % q, a, x, x, q); lemma_cong_mul(b % q, b, x, x, q); lemma_mod_twice((a % q) * x, q); lemma_mod_twice((b % q) * x, q);
    lemma_cong_mul(r1, b * x, s, s, q); lemma_cong_add(r0, a * x, r1 * s, b * x * s, q); assert(a * x + b * x * s == x * (a + b * s)) by(nonlinear_arith);
}
/// bound on the errors at depth i
pub open spec fn tree_noise(g: int, i: nat) -> int decreases i { if i == 0 { 0 } else { 2 * tree_noise(g, (i - 1) as nat) + g } }
pub proof fn lemma_tree_noise(g: int, i: nat) requires g >= 0, ensures tree_noise(g, i) == (pow2(i) - 1) * g, tree_noise(g, i) >= 0, decreases i,
{ lemma_pow64(); lemma_pow2_pos(i); if i > 0 { let h = (i - 1) as nat; lemma_tree_noise(g, h); lemma_pow2_unfold(i); lemma_pow2_pos(h); let P = pow2(h) as int; assert(2 * ((P - 1) * g) + g == (2 * P - 1) * g) by(nonlinear_arith); } else { lemma2_to64(); assert(0 * g == 0); } }
proof fn lemma_root(c0: BfvCipherText, ct: BfvCipherText, s: Poly, m: Seq<int>, ninv: int)
    requires ctx_wf(bctx(ct)), bctx(c0) == bctx(ct), is_phase(ct, s, m), forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(bctx(ct)) && 0 <= k < bctx(ct).degree ==> #[trigger] bc(c0, j, i, k) == (bc(ct, j, i, k) * ninv) % cq(bctx(ct), i),
    ensures phase_near(c0, s, cmsg(m, ninv, 0, 0), 0),
{
    let c = bctx(ct); lemma2_to64(); let z = zscale(m, ninv);
    assert forall|a: int, k: int| 0 <= a < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(c0, s, a, k), zev(c, z, a, k), cq(c, a)) by {
        lemma_ctx(c, a); let q = cq(c, a); lemma_zscale(c, m, ninv, a, k); let A0 = bc(ct, 0, a, k); let A1 = bc(ct, 1, a, k); let S = pc(s, a, k);
        assert(bc(c0, 0, a, k) == (A0 * ninv) % q); assert(bc(c0, 1, a, k) == (A1 * ninv) % q); lemma_mod_twice(A0 * ninv, q); lemma_mod_twice(A1 * ninv, q);
        lemma_cong_mul(bc(c0, 1, a, k), A1 * ninv, S, S, q); lemma_cong_add(bc(c0, 0, a, k), A0 * ninv, bc(c0, 1, a, k) * S, A1 * ninv * S, q);
        assert(A0 * ninv + A1 * ninv * S == ninv * (A0 + A1 * S)) by(nonlinear_arith); assert(cong(ph2(ct, s, a, k), zev(c, m, a, k), q)); lemma_cong_mul(ninv, ninv, A0 + A1 * S, zev(c, m, a, k), q); }
    assert(is_phase(c0, s, z)); let cm = cmsg(m, ninv, 0, 0);
    assert forall|k: int| 0 <= k < z.len() implies 0 <= #[trigger] z[k] - cm[k] <= 0 by { assert(k % 1 == 0); assert(cm[k] == pow2(0) * ninv * m[k + 0]); assert(pow2(0) == 1); assert(1 * ninv == ninv); }
    assert(near(z, cm, 0));
}
proof fn lemma_step(ev: Evaluation, p: Arc<BfvParameters>, par: BfvCipherText, even: BfvCipherText, odd: BfvCipherText, h: nat, u: int, s: Poly, cf: Seq<i64>, b: int, m: Seq<int>, ninv: int, E: int)
    requires node(ev, p, par, even, odd, h), eval_enc(ev, p, cf, b), b >= 0, bfv_wf(*p), row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), ct2(par, p), ct2(even, p), ct2(odd, p), phase_near(par, s, cmsg(m, ninv, h, u), E), h < clog(*p.q_ctxs@[0]), m.len() == p.degree, 0 <= u < pow2(h), E >= 0, gal_noise(*p.q_ctxs@[0], b) >= 0,
    ensures phase_near(even, s, cmsg(m, ninv, (h + 1) as nat, u), 2 * E + gal_noise(*p.q_ctxs@[0], b)), phase_near(odd, s, cmsg(m, ninv, (h + 1) as nat, u + pow2(h)), 2 * E + gal_noise(*p.q_ctxs@[0], b)),
{
    let c = *p.q_ctxs@[0]; lemma_level0(arcv(p), 0); lemma_clog(c, 0); let L = clog(c); let n = p.degree as int; let G = gal_noise(c, b);
    let z = choose|z: Seq<int>| near(z, cmsg(m, ninv, h, u), E) && #[trigger] is_phase(par, s, z);
    lemma_node(ev, p, par, even, odd, h, s, cf, b, z); let e = ek(n, h);
    let e1 = choose|e1: Seq<int>| #[trigger] bounded(e1, G) && e1.len() == p.degree && is_phase(even, s, ev_msg(z, e, e1)) && is_phase(odd, s, od_msg(z, e, e1, h));
    lemma_children(z, m, ninv, e1, L, h, u, E, G);
    assert(is_phase(even, s, ev_msg(z, e, e1))); assert(is_phase(odd, s, od_msg(z, e, e1, h)));
}
pub proof fn lemma_gal_noise(c: RqContext, b: int) requires ctx_wf(c), b >= 0, ensures gal_noise(c, b) >= 0,
{ lemma_ctx(c, 0); let n = c.degree as int; let B = 0x4000_0000_0000_0000 * b; assert(B >= 0); let nb = n * B; assert(nb >= 0) by(nonlinear_arith) requires n >= 0, B >= 0, nb == n * B; assert(ctx_n(c) * nb >= 0) by(nonlinear_arith) requires nb >= 0, ctx_n(c) >= 0; }
pub proof fn lemma_tree(ev: Evaluation, ct: BfvCipherText, r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int, s: Poly, cf: Seq<i64>, b: int, m: Seq<int>, i: nat, j: int)
    requires unpack_rel(ev, ct, r, tr, ninv), bfv_wf(*ct.params), eval_enc(ev, ct.params, cf, b), b >= 0, ct2(ct, ct.params), row_wf(s, ct.params.q_ctxs@[0]), is_sk(s, cf), is_phase(ct, s, m), i <= clog(bctx(ct)), 0 <= j < pow2(i),
    ensures phase_near(tr[i as int][j], s, cmsg(m, ninv, i, j), tree_noise(gal_noise(bctx(ct), b), i)), decreases i,
{
    let p = ct.params; let c = bctx(ct); let n = p.degree as int; lemma_level0(arcv(p), 0); lemma_clog(c, 0); let L = clog(c); let G = gal_noise(c, b); lemma_gal_noise(c, b);
    lemma_pow2_mono(i, L);
    if i == 0 { lemma2_to64(); assert(tr[0].len() == n); assert(ct2(tr[0][0], p)); lemma_root(tr[0][0], ct, s, m, ninv); }
    else {
        let h = (i - 1) as nat; let W = pow2(h) as int; lemma_pow2_unfold(i); lemma_pow2_pos(h); let u = if j < W { j } else { j - W };
        lemma_tree(ev, ct, r, tr, ninv, s, cf, b, m, h, u); let E = tree_noise(G, h); lemma_tree_noise(G, h);
        assert(tr[h as int].len() == n && tr[h as int + 1].len() == n);
        assert(ct2(tr[h as int][u], p)); assert(ct2(tr[h as int + 1][u], p)); assert(ct2(tr[h as int + 1][u + W], p));
        assert(tnode(ev, p, tr, h as int, u));
        lemma_step(ev, p, tr[h as int][u], tr[h as int + 1][u], tr[h as int + 1][u + W], h, u, s, cf, b, m, ninv, E);
    }
}
/// leaf j is, up to a bounded error, an encryption of the constant m[j]
pub proof fn lemma_unpack(ev: Evaluation, ct: BfvCipherText, r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int, s: Poly, cf: Seq<i64>, b: int, m: Seq<int>, j: int)
    requires unpack_rel(ev, ct, r, tr, ninv), bfv_wf(*ct.params), eval_enc(ev, ct.params, cf, b), b >= 0, ct2(ct, ct.params), row_wf(s, ct.params.q_ctxs@[0]), is_sk(s, cf), is_phase(ct, s, m), 0 <= j < ct.params.degree,
    ensures phase_near(r[j], s, zconst(m.len(), m[j]), (ct.params.degree - 1) * gal_noise(bctx(ct), b)),
{
    let p = ct.params; let c = bctx(ct); let n = p.degree as int; lemma_level0(arcv(p), 0); lemma_clog(c, 0); let L = clog(c); let G = gal_noise(c, b);
    lemma_tree(ev, ct, r, tr, ninv, s, cf, b, m, L, j); let E = tree_noise(G, L);
    lemma_gal_noise(c, b); lemma_tree_noise(G, L); let cm = cmsg(m, ninv, L, j);
    let z = choose|z: Seq<int>| near(z, cm, E) && #[trigger] is_phase(r[j], s, z);
    let zc = zconst(m.len(), m[j]); let z2 = Seq::new(z.len(), |k: int| z[k] - cm[k] + zc[k]);
    assert(ct2(tr[L as int][j], p)) by { assert(tr[L as int].len() == n); }
    assert(near(z2, zc, E)) by { assert forall|k: int| 0 <= k < z2.len() implies -E <= #[trigger] z2[k] - zc[k] <= E by { assert(-E <= z[k] - cm[k] <= E); } }
    assert forall|a: int, k: int| 0 <= a < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(r[j], s, a, k), zev(c, z2, a, k), cq(c, a)) by {
        lemma_ctx(c, a); let q = cq(c, a); assert(cong(ph2(r[j], s, a, k), zev(c, z, a, k), q));
        assert forall|u: int| 0 <= u < n implies cong(#[trigger] z[0 + u], z2[0 + u], q) by {
            if u == 0 { lemma_small_mod(0, n as nat); lemma_ninv(c, ninv, n, a); let v = m[j]; let w = ninv * n; lemma_cong_mul(w, 1, v, v, q); assert(n * ninv * v == w * v) by(nonlinear_arith) requires w == ninv * n; lemma_cong_add(z[0], z[0], n * ninv * v, 1 * v, q); 
              assert(cm[0] == n * ninv * v); let dd = z2[0] - z[0]; lemma_cong_add(z[0] , z[0], cm[0], v, q); assert((z[0] - cm[0]) % q == (z[0] - v) % q); lemma_cong_add(z[0] - v, z[0] - cm[0], v, v, q); }
            else { lemma_small_mod(u as nat, n as nat); assert(cm[u] == 0); }
        }
        lemma_bev_cong(z, z2, 0, n as nat, npt(c.ntt_ops@[a], k), npt(c.ntt_ops@[a], k), q);
    }
    assert(is_phase(r[j], s, z2));
}
proof fn lemma_ninv(c: RqContext, ninv: int, n: int, i: int) requires ctx_wf(c), 0 <= i < ctx_n(c), (ninv * n) % (c.rns.product.v() as int) == 1, ensures cong(ninv * n, 1, cq(c, i)),
{
    let q = cq(c, i); let P = c.rns.product.v() as int; lemma_ctx(c, i); lemma_qdiv(c, i); let w = P / q; lemma_prod2(c); lemma_small_mod(1, P as nat); let k = lemma_cong_elim(ninv * n, 1, P);
    assert(ninv * n == 1 + (k * w) * q) by(nonlinear_arith) requires ninv * n == 1 + k * P, P == w * q; lemma_cong_intro(ninv * n, 1, k * w, q);
}
