// The answer to a query is the database entry at its coordinates, up to a bounded error.
pub open spec fn is_const(x: Poly, ca: Arc<RqContext>, v: int) -> bool { row_wf(x, ca) && forall|i: int, k: int| 0 <= i < ctx_n(*ca) && 0 <= k < ca.degree ==> #[trigger] pc(x, i, k) == v }
pub open spec fn enc_bit(r: RgswCt, s: Poly, cf: Seq<i64>, bit: bool, zero: Poly, one: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>, b: int) -> bool { rgsw_enc(r, s, if bit { s } else { zero }, if bit { one } else { zero }, cf, z0, z1, b) }
pub open spec fn encs_bit(r: RgswCt, s: Poly, cf: Seq<i64>, bit: bool, zero: Poly, one: Poly, b: int) -> bool { exists|z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] enc_bit(r, s, cf, bit, zero, one, z0, z1, b) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// noise of a selector row
pub open spec fn sel_noise(c: RqContext, b: int, S: int, E: int) -> int { 2 * gal_noise(c, b) + c.degree * (S * E) + E }
pub open spec fn leaf_z(ct: BfvCipherText, s: Poly, m: Seq<int>, b: int) -> Seq<int> { choose|z: Seq<int>| near(z, m, b) && #[trigger] is_phase(ct, s, z) }
pub open spec fn zsub2(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| a[k] - b[k]) }
pub proof fn lemma_zsub2(c: RqContext, a: Seq<int>, b: Seq<int>, i: int, k: int)
    requires ctx_wf(c), a.len() == c.degree, b.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, ensures cong(zev(c, zsub2(a, b), i, k), zev(c, a, i, k) - zev(c, b, i, k), cq(c, i)),
{
    let d = zsub2(a, b); assert(zadd(d, b) =~= a); lemma_zadd(c, d, b, i, k); lemma_ctx(c, i); let q = cq(c, i); let x = zev(c, b, i, k); lemma_cong_add(zev(c, a, i, k), zev(c, d, i, k) + x, x, x, q);
}
pub proof fn lemma_bev_const(s: Seq<int>, v: int, n: nat, x: int) requires n <= s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == (if k == 0 { v } else { 0 }), ensures bev(s, 0, n, x) == (if n > 0 { v } else { 0 }), decreases n,
{ if n > 0 { let h = (n - 1) as nat; lemma_bev_const(s, v, h, x); if h == 0 { lemma_pow0(x); assert(v * 1 == v); } else { assert(0 * pow(x, h) == 0); } } }
pub proof fn lemma_zconst(c: RqContext, v: int, i: int, k: int) requires ctx_wf(c), 0 <= i < ctx_n(c), ensures zev(c, zconst(c.degree as nat, v), i, k) == v,
{ lemma_ctx(c, i); lemma_clog(c, i); lemma_pow2_pos(clog(c)); lemma_bev_const(zconst(c.degree as nat, v), v, c.degree as nat, npt(c.ntt_ops@[i], k)); }
/// the error of a leaf
pub open spec fn leaf_err(ct: BfvCipherText, s: Poly, v: int, b: int) -> Seq<int> { let m = zconst(bctx(ct).degree as nat, v); zsub2(leaf_z(ct, s, m, b), m) }
pub proof fn lemma_leaf(ct: BfvCipherText, p: Arc<BfvParameters>, s: Poly, v: int, b: int)
    requires bfv_wf(*p), ct2(ct, p), phase_near(ct, s, zconst(p.degree as nat, v), b), p.q_ctxs.len() >= 1,
    ensures ({ let e = leaf_err(ct, s, v, b); let c = *p.q_ctxs@[0]; bounded(e, b) && e.len() == c.degree && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] ph2(ct, s, i, k), zev(c, e, i, k) + v, cq(c, i)) }),
{
    lemma_level0(arcv(p), 0); let c = *p.q_ctxs@[0]; let m = zconst(c.degree as nat, v); let z = leaf_z(ct, s, m, b); assert(near(z, m, b) && is_phase(ct, s, z)); let e = leaf_err(ct, s, v, b);
    assert(bounded(e, b)) by { assert forall|k: int| 0 <= k < e.len() implies -b <= #[trigger] e[k] <= b by { assert(-b <= z[k] - m[k] <= b); } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(ct, s, i, k), zev(c, e, i, k) + v, cq(c, i)) by { lemma_ctx(c, i); lemma_zsub2(c, z, m, i, k); lemma_zconst(c, v, i, k); let q = cq(c, i); assert(cong(ph2(ct, s, i, k), zev(c, z, i, k), q)); lemma_cong_add(zev(c, e, i, k), zev(c, z, i, k) - v, v, v, q); }
}
/// the second half of a selector: the external product of the key with the leaf
pub open spec fn up_ok(s: Poly, sm: Poly, g: int, c0: Poly, c1: Poly, z: Seq<int>, b: int) -> bool { ksk_row(s, sm, g, c0, c1, z, b) }
pub proof fn lemma_upper(ev: Evaluation, p: Arc<BfvParameters>, leaf: BfvCipherText, s: Poly, sm: Poly, cf: Seq<i64>, b: int, S: int, E: int, g: int, bit: bool, c0: Poly, c1: Poly)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, eval_sk(ev, p, cf, b), b >= 0, ext_of(ev.sk_rgsw, leaf, c0, c1), ct2(leaf, p), row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), bounded(ints_i(cf), S), S >= 0, E >= 0,
      phase_near(leaf, s, zconst(p.degree as nat, g * b2i(bit)), E), is_bit_of(sm, s, bit),
    ensures exists|z: Seq<int>| #[trigger] ksk_row(s, sm, g, c0, c1, z, sel_noise(*p.q_ctxs@[0], b, S, E)),
{
    lemma_level0(arcv(p), 0); let c = *p.q_ctxs@[0]; let n = c.degree as int; let r = ev.sk_rgsw; let v = g * b2i(bit);
    let (s1, sm1, mp, z0, z1) = choose|s1: Poly, sm1: Poly, m: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] rgsw_sk(r, s1, sm1, m, cf, z0, z1, b);
    let (d0, d1, a0, a1, b0, b1) = choose|d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly| #[trigger] ext_out(r, leaf.cts@[0], leaf.cts@[1], d0, d1, a0, a1, b0, b1, c0, c1);
    lemma_ext_product(r, s1, sm1, mp, cf, z0, z1, b, leaf.cts@[0], leaf.cts@[1], d0, d1, a0, a1, b0, b1, c0, c1);
    let e = choose|e: Seq<int>| e.len() == c.degree && #[trigger] bounded(e, 2 * gal_noise(c, b)) && 
        forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(s1, i, k), zev(c, e, i, k) + pc(mp, i, k) * (pc(leaf.cts@[0], i, k) + pc(leaf.cts@[1], i, k) * pc(s1, i, k)), cq(c, i));
    lemma_leaf(leaf, p, s, v, E); let le = leaf_err(leaf, s, v, E); let sz = ints_i(cf); let w = nmul(sz, le); let z = zadd(e, w); let B = sel_noise(c, b, S, E); let T = n * (S * E);
    assert(S * E >= 0) by(nonlinear_arith) requires S >= 0, E >= 0;
    assert(bounded(z, B)) by { assert forall|k: int| 0 <= k < z.len() implies -B <= #[trigger] z[k] <= B by { lemma_nmul_bound(sz, le, n as nat, k, S, E); assert(w[k] == nmul_coef(sz, le, n as nat, k)); assert(-(2 * gal_noise(c, b)) <= e[k] <= 2 * gal_noise(c, b)); } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(s, i, k), zev(c, z, i, k) + g * pc(sm, i, k), cq(c, i)) by {
        lemma_ctx(c, i); let q = cq(c, i); lemma_same_sk(s, s1, cf, i); lemma_same_sk(s, mp, cf, i); assert(pc(s, i, k) == pc(s1, i, k) && pc(s, i, k) == pc(mp, i, k)); let SS = pc(s, i, k);
        assert(cong(pc(c0, i, k) + pc(c1, i, k) * pc(s1, i, k), zev(c, e, i, k) + pc(mp, i, k) * (pc(leaf.cts@[0], i, k) + pc(leaf.cts@[1], i, k) * pc(s1, i, k)), q));
        let ph = ph2(leaf, s, i, k); let LE = zev(c, le, i, k); assert(cong(ph, LE + v, q)); lemma_zadd(c, e, w, i, k); lemma_zmul(c, sz, le, i, k); lemma_den_ev(s, sz, i, k); let SZ = zev(c, sz, i, k); lemma_mod_twice(SZ, q);
        lemma_cong_mul(SS, SS, ph, LE + v, q); lemma_cong_mul(SZ, SS, LE, LE, q); let EE = zev(c, e, i, k); let WW = zev(c, w, i, k);
        lemma_cong_add(EE, EE, WW, SS * LE, q); lemma_cong_add(EE, EE, SS * ph, SS * (LE + v), q); 
        assert(SS * (LE + v) == SS * LE + g * (SS * b2i(bit))) by(nonlinear_arith) requires v == g * b2i(bit);
        assert(pc(sm, i, k) == SS * b2i(bit)) by { assert(SS * 1 == SS && SS * 0 == 0); }
        let Y = g * pc(sm, i, k); lemma_cong_add(zev(c, z, i, k), EE + SS * LE, Y, Y, q);
    }
    assert(ksk_row(s, sm, g, c0, c1, z, B));
}
pub open spec fn is_bit_of(sm: Poly, s: Poly, bit: bool) -> bool { forall|i: int, k: int| 0 <= i < ctx_n(*s.context) && 0 <= k < s.context.degree ==> #[trigger] pc(sm, i, k) == (if bit { pc(s, i, k) } else { 0 }) }
/// a selector built from leaves that hold garner_j times a bit encrypts that bit
pub proof fn lemma_sel(ev: Evaluation, p: Arc<BfvParameters>, us: Seq<Seq<BfvCipherText>>, x: int, rg: RgswCt, s: Poly, cf: Seq<i64>, b: int, S: int, E: int, bit: bool, zero: Poly, one: Poly)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, eval_sk(ev, p, cf, b), b >= 0, sel_rel(ev, p, us, x, rg), row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), bounded(ints_i(cf), S), S >= 0, E >= 0, is_const(zero, p.q_ctxs@[0], 0), is_const(one, p.q_ctxs@[0], 1),
      forall|j: int| 0 <= j < us.len() ==> #[trigger] sel_leaf(us, x, p, s, E, bit, j),
    ensures encs_bit(rg, s, cf, bit, zero, one, sel_noise(*p.q_ctxs@[0], b, S, E)),
{
    lemma_level0(arcv(p), 0); let ca = p.q_ctxs@[0]; let c = *ca; let n = c.degree as int; let M = us.len(); let B = sel_noise(c, b, S, E); let sm = if bit { s } else { zero }; let m = if bit { one } else { zero };
    lemma_gal_noise(c, b); assert(S * E >= 0) by(nonlinear_arith) requires S >= 0, E >= 0; let T = S * E; assert(n * T >= 0) by(nonlinear_arith) requires T >= 0, n >= 0;
    let gs = |j: int| c.rns.garner@[j].v() as int;
    let z0 = Seq::new(M, |j: int| choose|z: Seq<int>| #[trigger] ksk_row(s, sm, c.rns.garner@[j].v() as int, rg.ksk0.c0@[j], rg.ksk0.c1@[j], z, B));
    let z1 = Seq::new(M, |j: int| leaf_err(us[j][x], s, c.rns.garner@[j].v() * b2i(bit), E));
    assert(is_bit_of(sm, s, bit)) by { if !bit { assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(sm, i, k) == 0 by { assert(pc(zero, i, k) == 0); } } }
    assert forall|j: int| 0 <= j < M implies ksk_row(s, sm, c.rns.garner@[j].v() as int, rg.ksk0.c0@[j], rg.ksk0.c1@[j], #[trigger] z0[j], B) by {
        assert(sel_leaf(us, x, p, s, E, bit, j)); assert(ext_of(ev.sk_rgsw, us[j][x], rg.ksk0.c0@[j], rg.ksk0.c1@[j])); lemma_upper(ev, p, us[j][x], s, sm, cf, b, S, E, c.rns.garner@[j].v() as int, bit, rg.ksk0.c0@[j], rg.ksk0.c1@[j]); }
    assert forall|j: int| 0 <= j < M implies ksk_row(s, m, c.rns.garner@[j].v() as int, rg.ksk1.c0@[j], rg.ksk1.c1@[j], #[trigger] z1[j], B) by {
        let g = c.rns.garner@[j].v() as int; assert(sel_leaf(us, x, p, s, E, bit, j)); let leaf = us[j][x]; let v = g * b2i(bit); lemma_leaf(leaf, p, s, v, E); let z = z1[j]; let c0 = rg.ksk1.c0@[j]; let c1 = rg.ksk1.c1@[j];
        assert(c0 == leaf.cts@[0] && c1 == leaf.cts@[1]);
        assert forall|k: int| 0 <= k < z.len() implies -B <= #[trigger] z[k] <= B by { assert(-E <= z[k] <= E); }
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(s, i, k), zev(c, z, i, k) + g * pc(m, i, k), cq(c, i)) by { assert(cong(ph2(leaf, s, i, k), zev(c, z, i, k) + v, cq(c, i))); if bit { assert(pc(one, i, k) == 1); } else { assert(pc(zero, i, k) == 0); } } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(sm, i, k) == (pc(s, i, k) * pc(m, i, k)) % cq(c, i) by { lemma_ctx(c, i); let q = cq(c, i); let SS = pc(s, i, k); assert(s.coefficients.rows@[i]@[k] < s.context.moduli_64@[i]); if bit { assert(pc(one, i, k) == 1); assert(SS * 1 == SS); lemma_small_mod(SS as nat, q as nat); } else { assert(pc(zero, i, k) == 0); assert(SS * 0 == 0); lemma_small_mod(0, q as nat); } }
    assert(ksk_enc(rg.ksk0, s, sm, z0, B)); assert(ksk_enc(rg.ksk1, s, m, z1, B));
    assert(enc_bit(rg, s, cf, bit, zero, one, z0, z1, B));
}
pub open spec fn sel_leaf(us: Seq<Seq<BfvCipherText>>, x: int, p: Arc<BfvParameters>, s: Poly, E: int, bit: bool, j: int) -> bool { ct2(us[j][x], p) && phase_near(us[j][x], s, zconst(p.degree as nat, p.q_ctxs@[0].rns.garner@[j].v() * b2i(bit)), E) }
// ------------------------------------------------------------------ folding a dimension
pub proof fn lemma_ext_bit(r: RgswCt, s: Poly, cf: Seq<i64>, bit: bool, zero: Poly, one: Poly, b: int, ct: BfvCipherText, out: BfvCipherText)
    requires encs_bit(r, s, cf, bit, zero, one, b), b >= 0, ext_of(r, ct, out.cts@[0], out.cts@[1]), ctx_wf(*s.context), is_const(zero, s.context, 0), is_const(one, s.context, 1),
    ensures ({ let c = *s.context; exists|e: Seq<int>| e.len() == c.degree && #[trigger] bounded(e, 2 * gal_noise(c, b)) && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] ph2(out, s, i, k), zev(c, e, i, k) + b2i(bit) * ph2(ct, s, i, k), cq(c, i)) }),
{
    let c = *s.context; let (z0, z1) = choose|z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] enc_bit(r, s, cf, bit, zero, one, z0, z1, b); let m = if bit { one } else { zero }; let sm = if bit { s } else { zero }; let r0 = out.cts@[0]; let r1 = out.cts@[1]; let f0 = ct.cts@[0]; let f1 = ct.cts@[1];
    let (d0, d1, a0, a1, b0, b1) = choose|d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly| #[trigger] ext_out(r, f0, f1, d0, d1, a0, a1, b0, b1, r0, r1);
    lemma_ext_product(r, s, sm, m, cf, z0, z1, b, f0, f1, d0, d1, a0, a1, b0, b1, r0, r1);
    let e = choose|e: Seq<int>| e.len() == c.degree && #[trigger] bounded(e, 2 * gal_noise(c, b)) && 
        forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + pc(m, i, k) * (pc(f0, i, k) + pc(f1, i, k) * pc(s, i, k)), cq(c, i));
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(out, s, i, k), zev(c, e, i, k) + b2i(bit) * ph2(ct, s, i, k), cq(c, i)) by { if bit { assert(pc(one, i, k) == 1); } else { assert(pc(zero, i, k) == 0); } assert(cong(pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + pc(m, i, k) * (pc(f0, i, k) + pc(f1, i, k) * pc(s, i, k)), cq(c, i))); }
}
/// the error of a row of a fold, product u
pub open spec fn is_ext_err(out: BfvCipherText, ct: BfvCipherText, s: Poly, bit: bool, e: Seq<int>) -> bool { let c = *s.context; forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] ph2(out, s, i, k), zev(c, e, i, k) + b2i(bit) * ph2(ct, s, i, k), cq(c, i)) }
pub open spec fn cph(ps: Seq<BfvCipherText>, s: Poly, i: int, k: int, u: nat) -> int { csum(ps, 0, i, k, u) + csum(ps, 1, i, k, u) * pc(s, i, k) }
pub open spec fn fold_part(ps: Seq<BfvCipherText>, s: Poly, z: Seq<int>, x: int, u: nat, e: Seq<int>, N: int) -> bool {
    let c = *s.context; e.len() == c.degree && bounded(e, u * N) && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] cph(ps, s, i, k, u), zev(c, e, i, k) + (if x < u { zev(c, z, i, k) } else { 0 }), cq(c, i)) }
pub open spec fn sel_bit(rgs: Seq<RgswCt>, so: int, s: Poly, cf: Seq<i64>, x: int, zero: Poly, one: Poly, b: int, u: int) -> bool { encs_bit(rgs[so + u], s, cf, u == x, zero, one, b) }
pub proof fn lemma_fold_part(rgs: Seq<RgswCt>, so: int, prev: Seq<BfvCipherText>, off: int, d: nat, p: Arc<BfvParameters>, out: BfvCipherText, ps: Seq<BfvCipherText>, s: Poly, cf: Seq<i64>, zero: Poly, one: Poly, b: int, x: int, z: Seq<int>, u: nat)
    requires row_of(rgs, so, prev, off, d, p, out, ps), bfv_wf(*p), p.q_ctxs.len() >= 1, b >= 0, row_wf(s, p.q_ctxs@[0]), is_const(zero, s.context, 0), is_const(one, s.context, 1), 0 <= x < d, u <= d,
      forall|v: int| 0 <= v < d ==> #[trigger] sel_bit(rgs, so, s, cf, x, zero, one, b, v), is_phase(prev[off + x], s, z), ct2(prev[off + x], p),
    ensures exists|e: Seq<int>| #[trigger] fold_part(ps, s, z, x, u, e, 2 * gal_noise(*s.context, b)), decreases u,
{
    lemma_level0(arcv(p), 0); let c = *s.context; let N = 2 * gal_noise(c, b); let n = c.degree as nat;
    if u == 0 {
        let e = zzero(n); assert(0 * N == 0);
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] cph(ps, s, i, k, 0), zev(c, e, i, k) + (if x < 0 { zev(c, z, i, k) } else { 0 }), cq(c, i)) by { lemma_zzero(c, i, k); assert(0 * pc(s, i, k) == 0); }
        assert(fold_part(ps, s, z, x, u, e, N));
    } else {
        let h = (u - 1) as nat; lemma_fold_part(rgs, so, prev, off, d, p, out, ps, s, cf, zero, one, b, x, z, h); let e0 = choose|e: Seq<int>| #[trigger] fold_part(ps, s, z, x, h, e, N);
        let y = ps[h as int]; assert(ct2(y, p)); assert(sel_bit(rgs, so, s, cf, x, zero, one, b, h as int)); let pr = prev[off + h]; assert(ext_of(rgs[so + h], pr, y.cts@[0], y.cts@[1]));
        lemma_ext_bit(rgs[so + h], s, cf, h == x, zero, one, b, pr, y);
        let e1 = choose|e: Seq<int>| e.len() == c.degree && #[trigger] bounded(e, N) && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] ph2(y, s, i, k), zev(c, e, i, k) + b2i(h == x) * ph2(pr, s, i, k), cq(c, i));
        let e = zadd(e0, e1); let hN = h * N; assert(u * N == hN + N) by(nonlinear_arith) requires hN == h * N, u == h + 1;
        assert(bounded(e, u * N)) by { assert forall|k: int| 0 <= k < e.len() implies -(u * N) <= #[trigger] e[k] <= u * N by { assert(-hN <= e0[k] <= hN); assert(-N <= e1[k] <= N); } }
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] cph(ps, s, i, k, u), zev(c, e, i, k) + (if x < u { zev(c, z, i, k) } else { 0 }), cq(c, i)) by {
            lemma_ctx(c, i); let q = cq(c, i); let SS = pc(s, i, k); let Z = zev(c, z, i, k); let a0 = csum(ps, 0, i, k, h); let a1 = csum(ps, 1, i, k, h); let b0 = bc(y, 0, i, k); let b1 = bc(y, 1, i, k);
            assert(cph(ps, s, i, k, u) == cph(ps, s, i, k, h) + ph2(y, s, i, k)) by { assert((a1 + b1) * SS == a1 * SS + b1 * SS) by(nonlinear_arith); }
            let E0 = zev(c, e0, i, k); let E1 = zev(c, e1, i, k); let t0 = if x < h { Z } else { 0 }; let P = ph2(pr, s, i, k); let t1 = b2i(h == x) * P; let T1 = if h == x { Z } else { 0 };
            assert(cong(cph(ps, s, i, k, h), E0 + t0, q)); assert(cong(ph2(y, s, i, k), E1 + t1, q)); 
            if h == x { assert(t1 == P); assert(cong(ph2(prev[off + x], s, i, k), zev(bctx(prev[off + x]), z, i, k), cq(bctx(prev[off + x]), i))); lemma_cong_add(E1, E1, P, Z, q); } else { assert(t1 == 0) by { assert(0 * P == 0); } }
            assert(cong(ph2(y, s, i, k), E1 + T1, q)); lemma_cong_add(cph(ps, s, i, k, h), E0 + t0, ph2(y, s, i, k), E1 + T1, q); lemma_zadd(c, e0, e1, i, k); let w = t0 + T1; lemma_cong_add(zev(c, e, i, k), E0 + E1, w, w, q);
        }
        assert(fold_part(ps, s, z, x, u, e, N));
    }
}
/// folding a row: the row the selectors point at, plus the noise of d external products
pub proof fn lemma_fold(rgs: Seq<RgswCt>, so: int, prev: Seq<BfvCipherText>, off: int, d: nat, p: Arc<BfvParameters>, out: BfvCipherText, s: Poly, cf: Seq<i64>, zero: Poly, one: Poly, b: int, x: int, m: Seq<int>, B: int)
    requires row_rel(rgs, so, prev, off, d, p, out), bfv_wf(*p), p.q_ctxs.len() >= 1, b >= 0, row_wf(s, p.q_ctxs@[0]), is_const(zero, s.context, 0), is_const(one, s.context, 1), 0 <= x < d,
      forall|v: int| 0 <= v < d ==> #[trigger] sel_bit(rgs, so, s, cf, x, zero, one, b, v), phase_near(prev[off + x], s, m, B), ct2(prev[off + x], p),
    ensures ct2(out, p), phase_near(out, s, m, B + d * (2 * gal_noise(*s.context, b))),
{
    lemma_level0(arcv(p), 0); let c = *s.context; let N = 2 * gal_noise(c, b); let dN = d * N; let z = choose|z: Seq<int>| near(z, m, B) && #[trigger] is_phase(prev[off + x], s, z);
    let ps = choose|ps: Seq<BfvCipherText>| #[trigger] row_of(rgs, so, prev, off, d, p, out, ps); lemma_fold_part(rgs, so, prev, off, d, p, out, ps, s, cf, zero, one, b, x, z, d);
    let e = choose|e: Seq<int>| #[trigger] fold_part(ps, s, z, x, d, e, N); let w = zadd(z, e);
    assert(near(w, m, B + dN)) by { assert forall|k: int| 0 <= k < w.len() implies -(B + dN) <= #[trigger] w[k] - m[k] <= B + dN by { assert(-B <= z[k] - m[k] <= B); assert(-dN <= e[k] <= dN); } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(out, s, i, k), zev(c, w, i, k), cq(c, i)) by {
        lemma_ctx(c, i); let q = cq(c, i); let SS = pc(s, i, k); let a0 = csum(ps, 0, i, k, d); let a1 = csum(ps, 1, i, k, d); assert(bc(out, 0, i, k) == a0 % q); assert(bc(out, 1, i, k) == a1 % q); lemma_mod_twice(a0, q); lemma_mod_twice(a1, q); lemma_cong_mul(a1 % q, a1, SS, SS, q); lemma_cong_add(a0 % q, a0, (a1 % q) * SS, a1 * SS, q);
        assert(cong(cph(ps, s, i, k, d), zev(c, e, i, k) + zev(c, z, i, k), q)); lemma_zadd(c, z, e, i, k); }
    assert(is_phase(out, s, w));
}
// ------------------------------------------------------------------ the first dimension
pub open spec fn fph(fc: Seq<BfvCipherText>, db: Seq<Poly>, off: int, s: Poly, i: int, k: int, u: nat) -> int { fsum(fc, db, off, 0, i, k, u) + fsum(fc, db, off, 1, i, k, u) * pc(s, i, k) }
/// entry u of the database is the polynomial dz[u]
pub open spec fn db_den(db: Seq<Poly>, dz: Seq<Seq<int>>, ca: Arc<RqContext>, T: int, u: int) -> bool { row_wf(db[u], ca) && den_int(db[u], dz[u]) && dz[u].len() == ca.degree && bounded(dz[u], T) }
pub open spec fn first_leaf(fc: Seq<BfvCipherText>, p: Arc<BfvParameters>, s: Poly, mu: int, x: int, E: int, u: int) -> bool { ct2(fc[u], p) && phase_near(fc[u], s, zconst(p.degree as nat, mu * b2i(u == x)), E) }
pub open spec fn first_part(fc: Seq<BfvCipherText>, db: Seq<Poly>, off: int, s: Poly, zd: Seq<int>, mu: int, x: int, u: nat, e: Seq<int>, N: int) -> bool {
    let c = *s.context; e.len() == c.degree && bounded(e, u * N) && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] fph(fc, db, off, s, i, k, u), zev(c, e, i, k) + (if x < u { mu * zev(c, zd, i, k) } else { 0 }), cq(c, i)) }
pub proof fn lemma_first_part(fc: Seq<BfvCipherText>, db: Seq<Poly>, dz: Seq<Seq<int>>, off: int, f: nat, p: Arc<BfvParameters>, s: Poly, mu: int, x: int, E: int, T: int, u: nat)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, row_wf(s, p.q_ctxs@[0]), 0 <= x < f, u <= f, 0 <= off, off + f <= db.len(), E >= 0, T >= 0,
      forall|v: int| 0 <= v < f ==> #[trigger] first_leaf(fc, p, s, mu, x, E, v), forall|v: int| 0 <= v < db.len() ==> #[trigger] db_den(db, dz, s.context, T, v),
    ensures exists|e: Seq<int>| #[trigger] first_part(fc, db, off, s, dz[off + x], mu, x, u, e, s.context.degree * (E * T)), decreases u,
{
    lemma_level0(arcv(p), 0); let c = *s.context; let n = c.degree as nat; let N = n * (E * T); let zd = dz[off + x];
    if u == 0 {
        let e = zzero(n); assert(0 * N == 0);
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] fph(fc, db, off, s, i, k, 0), zev(c, e, i, k) + (if x < 0 { mu * zev(c, zd, i, k) } else { 0 }), cq(c, i)) by { lemma_zzero(c, i, k); assert(0 * pc(s, i, k) == 0); }
        assert(first_part(fc, db, off, s, zd, mu, x, u, e, N));
    } else {
        let h = (u - 1) as nat; lemma_first_part(fc, db, dz, off, f, p, s, mu, x, E, T, h); let e0 = choose|e: Seq<int>| #[trigger] first_part(fc, db, off, s, zd, mu, x, h, e, N);
        let y = fc[h as int]; let v = mu * b2i(h == x); assert(first_leaf(fc, p, s, mu, x, E, h as int)); lemma_leaf(y, p, s, v, E); let le = leaf_err(y, s, v, E); let D = db[off + h]; let zu = dz[off + h]; assert(db_den(db, dz, s.context, T, off + h)); let e1 = nmul(le, zu);
        let e = zadd(e0, e1); let hN = h * N; assert(u * N == hN + N) by(nonlinear_arith) requires hN == h * N, u == h + 1; assert(e1.len() == n);
        assert(bounded(e, u * N)) by { assert forall|k: int| 0 <= k < e.len() implies -(u * N) <= #[trigger] e[k] <= u * N by { assert(-hN <= e0[k] <= hN); lemma_nmul_bound(le, zu, n, k, E, T); assert(e1[k] == nmul_coef(le, zu, n, k)); } }
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] fph(fc, db, off, s, i, k, u), zev(c, e, i, k) + (if x < u { mu * zev(c, zd, i, k) } else { 0 }), cq(c, i)) by {
            lemma_ctx(c, i); let q = cq(c, i); let SS = pc(s, i, k); let Z = zev(c, zd, i, k); let a0 = fsum(fc, db, off, 0, i, k, h); let a1 = fsum(fc, db, off, 1, i, k, h); let b0 = bc(y, 0, i, k); let b1 = bc(y, 1, i, k); let d = pc(D, i, k); let P = ph2(y, s, i, k);
            assert(D == db[off + u - 1]);
            assert(fph(fc, db, off, s, i, k, u) == fph(fc, db, off, s, i, k, h) + P * d) by { assert((a1 + b1 * d) * SS == a1 * SS + b1 * d * SS) by(nonlinear_arith); assert((b0 + b1 * SS) * d == b0 * d + b1 * d * SS) by(nonlinear_arith); }
            let E0 = zev(c, e0, i, k); let E1 = zev(c, e1, i, k); let LE = zev(c, le, i, k); let ZU = zev(c, zu, i, k); let w = if x < h { mu * Z } else { 0 }; let W1 = if h == x { mu * Z } else { 0 };
            assert(cong(fph(fc, db, off, s, i, k, h), E0 + w, q)); assert(cong(P, LE + v, q)); lemma_den_ev(D, zu, i, k); lemma_mod_twice(ZU, q); lemma_cong_mul(P, LE + v, d, ZU, q); lemma_zmul(c, le, zu, i, k);
            assert((LE + v) * ZU == LE * ZU + v * ZU) by(nonlinear_arith); assert(v * ZU == W1) by { if h == x { assert(mu * 1 == mu); } else { assert(mu * 0 == 0); assert(0 * ZU == 0); } }
            lemma_cong_add(LE * ZU, E1, W1, W1, q); assert(cong(P * d, E1 + W1, q)); lemma_cong_add(fph(fc, db, off, s, i, k, h), E0 + w, P * d, E1 + W1, q); lemma_zadd(c, e0, e1, i, k); let ww = w + W1; lemma_cong_add(zev(c, e, i, k), E0 + E1, ww, ww, q);
        }
        assert(first_part(fc, db, off, s, zd, mu, x, u, e, N));
    }
}
pub proof fn lemma_first(fc: Seq<BfvCipherText>, db: Seq<Poly>, dz: Seq<Seq<int>>, off: int, f: nat, p: Arc<BfvParameters>, out: BfvCipherText, s: Poly, mu: int, x: int, E: int, T: int)
    requires first_rel(fc, db, off, f, p, out), bfv_wf(*p), p.q_ctxs.len() >= 1, row_wf(s, p.q_ctxs@[0]), 0 <= x < f, 0 <= off, off + f <= db.len(), E >= 0, T >= 0,
      forall|v: int| 0 <= v < f ==> #[trigger] first_leaf(fc, p, s, mu, x, E, v), forall|v: int| 0 <= v < db.len() ==> #[trigger] db_den(db, dz, s.context, T, v),
    ensures ct2(out, p), phase_near(out, s, zscale(dz[off + x], mu), f * (s.context.degree * (E * T))),
{
    lemma_level0(arcv(p), 0); let c = *s.context; let n = c.degree as nat; let N = n * (E * T); let fN = f * N; let zd = dz[off + x]; assert(db_den(db, dz, s.context, T, off + x)); lemma_first_part(fc, db, dz, off, f, p, s, mu, x, E, T, f);
    let e = choose|e: Seq<int>| #[trigger] first_part(fc, db, off, s, zd, mu, x, f, e, N); let m = zscale(zd, mu); let w = zadd(m, e);
    assert(near(w, m, fN)) by { assert forall|k: int| 0 <= k < w.len() implies -fN <= #[trigger] w[k] - m[k] <= fN by { assert(-fN <= e[k] <= fN); } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(out, s, i, k), zev(c, w, i, k), cq(c, i)) by {
        lemma_ctx(c, i); let q = cq(c, i); let SS = pc(s, i, k); let a0 = fsum(fc, db, off, 0, i, k, f); let a1 = fsum(fc, db, off, 1, i, k, f); assert(bc(out, 0, i, k) == a0 % q); assert(bc(out, 1, i, k) == a1 % q); lemma_mod_twice(a0, q); lemma_mod_twice(a1, q); lemma_cong_mul(a1 % q, a1, SS, SS, q); lemma_cong_add(a0 % q, a0, (a1 % q) * SS, a1 * SS, q);
        assert(cong(fph(fc, db, off, s, i, k, f), zev(c, e, i, k) + mu * zev(c, zd, i, k), q)); lemma_zadd(c, m, e, i, k); lemma_zscale(c, zd, mu, i, k); let EE = zev(c, e, i, k); lemma_cong_add(zev(c, m, i, k), mu * zev(c, zd, i, k), EE, EE, q); }
    assert(is_phase(out, s, w));
}
// ------------------------------------------------------------------ the whole query
pub proof fn lemma_near_trans(ct: BfvCipherText, s: Poly, n: nat, v: int, w: int, E: int, B: int)
    requires phase_near(ct, s, zconst(n, v), E), -B <= v - w <= B, ensures phase_near(ct, s, zconst(n, w), E + B),
{
    let z = choose|z: Seq<int>| near(z, zconst(n, v), E) && #[trigger] is_phase(ct, s, z); let m = zconst(n, w);
    assert(near(z, m, E + B)) by { assert forall|k: int| 0 <= k < z.len() implies -(E + B) <= #[trigger] z[k] - m[k] <= E + B by { assert(-E <= z[k] - zconst(n, v)[k] <= E); } }
}
pub proof fn lemma_onehots(q: Seq<usize>, d: nat, k: nat, a: int, u: int) requires 0 <= a < k - 1, 0 <= u < d, ensures 0 <= a * d + u < d * (k - 1), hots(q, d, k)[a * d + u] as int == b2i(u == q[a + 1]), hots(q, d, k).len() == d * (k - 1), decreases k,
{
    lemma_hots(q, d, k); lemma_hots(q, d, (k - 1) as nat); let h = k - 1; assert(a * d + u < d * h) by(nonlinear_arith) requires a + 1 <= h, u < d; assert(0 <= a * d) by(nonlinear_arith) requires a >= 0, d >= 0;
    if a == k - 2 { assert(d * (h - 1) == a * d) by(nonlinear_arith) requires a == h - 1; } else { lemma_onehots(q, d, (k - 1) as nat, a, u); }
}
/// the row of the database the coordinates after the first dimension select, seen from dimension a on
pub open spec fn row_at(q: Seq<usize>, d: int, k: nat, a: nat) -> int decreases k - a { if a + 1 >= k { 0 } else { row_at(q, d, k, a + 1) * d + q[(a + 1) as int] } }
/// ciphertexts encrypt the coordinates: the first with factor mu, number j + 1 with the j-th Garner constant, each coefficient within B
pub open spec fn query_enc(qs: Seq<BfvCipherText>, p: Arc<BfvParameters>, s: Poly, m: Seq<Seq<int>>, q: Seq<usize>, f: int, d: nat, k: nat, mu: int, B: int) -> bool {
    &&& m.len() == qs.len() && (forall|j: int| 0 <= j < m.len() ==> is_phase(qs[j], s, #[trigger] m[j]) && ct2(qs[j], p))
    &&& (forall|u: int| 0 <= u < f ==> -B <= #[trigger] m[0][u] - mu * b2i(u == q[0]) <= B)
    &&& (forall|j: int, u: int| 0 <= j < m.len() - 1 && 0 <= u < d * (k - 1) ==> #[trigger] sel_coef(m, p, hots(q, d, k), B, j, u))
}
pub open spec fn sel_coef(m: Seq<Seq<int>>, p: Arc<BfvParameters>, h: Seq<u64>, B: int, j: int, u: int) -> bool { -B <= m[j + 1][u] - p.q_ctxs@[0].rns.garner@[j].v() * h[u] <= B }
pub open spec fn leaf_noise(c: RqContext, b: int, B: int) -> int { (c.degree - 1) * gal_noise(c, b) + B }
/// noise of the answer: first dimension f, then k - 1 folds of size d; secret at most S, database entries at most T
pub open spec fn answer_noise(c: RqContext, b: int, B: int, S: int, T: int, f: int, d: int, a: int) -> int { let E = leaf_noise(c, b, B); f * (c.degree * (E * T)) + a * (d * (2 * gal_noise(c, sel_noise(c, b, S, E)))) }
pub open spec fn rows_len(dbs: Seq<Seq<BfvCipherText>>, lg: nat, k: nat) -> bool { forall|a: int| 0 <= a < k ==> (#[trigger] dbs[a]).len() == dpow(lg, (k - 1 - a) as nat) }
pub proof fn lemma_rows_len(sv: Server, p: Arc<BfvParameters>, lg: nat, k: nat, rgs: Seq<RgswCt>, dbs: Seq<Seq<BfvCipherText>>, a: nat)
    requires server_wf(sv, p, lg, k), dbs.len() == k, dbs[0].len() * sv.first_dim as int == sv.db.len(), forall|x: int| 0 <= x < k - 1 ==> #[trigger] dim_rel(rgs, dbs, x, sv.dim as nat, p), a < k,
    ensures dbs[a as int].len() == dpow(lg, (k - 1 - a) as nat), decreases a,
{
    if a == 0 { let x = dbs[0].len() as int; let y = dpow(lg, (k - 1) as nat) as int; let f = sv.first_dim as int; assert(x == y) by(nonlinear_arith) requires x * f == f * y, f >= 1; }
    else { let h = (a - 1) as nat; lemma_rows_len(sv, p, lg, k, rgs, dbs, h); assert(dim_rel(rgs, dbs, h as int, sv.dim as nat, p)); lemma_shape(lg, k - 1 - h); let x = dbs[a as int].len() as int; let y = dpow(lg, (k - 1 - a) as nat) as int; let d = sv.dim as int; assert(x == y) by(nonlinear_arith) requires x * d == d * y, d >= 1; }
}
pub proof fn lemma_row_at(q: Seq<usize>, d: nat, lg: nat, k: nat, a: nat)
    requires d == lg, d >= 1, k >= 1, a < k, forall|j: int| 1 <= j < k ==> 0 <= #[trigger] q[j] < d, q.len() == k,
    ensures 0 <= row_at(q, d as int, k, a) < dpow(lg, (k - 1 - a) as nat), decreases k - a,
{
    if a + 1 >= k { } else { lemma_row_at(q, d, lg, k, a + 1); let r = row_at(q, d as int, k, a + 1); lemma_shape(lg, k - 1 - a); let P = dpow(lg, (k - 1 - (a + 1)) as nat) as int; let x = q[(a + 1) as int] as int; assert(r * d + x < d * P) by(nonlinear_arith) requires r + 1 <= P, x < d; assert(0 <= r * d) by(nonlinear_arith) requires r >= 0, d >= 0; }
}
/// the selector for place u of dimension a encrypts the bit u == q[a + 1]
pub proof fn lemma_selectors(sv: Server, qs: Seq<BfvCipherText>, ev: Evaluation, p: Arc<BfvParameters>, k: nat, fc: Seq<BfvCipherText>, us: Seq<Seq<BfvCipherText>>, rgs: Seq<RgswCt>, s: Poly, cf: Seq<i64>, b: int, S: int, zero: Poly, one: Poly, m: Seq<Seq<int>>, q: Seq<usize>, mu: int, B: int, a: int, u: int)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, decode_rel_a(sv, qs, ev, p, k, fc, us, rgs), eval_enc(ev, p, cf, b), eval_sk(ev, p, cf, b), b >= 0, row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), bounded(ints_i(cf), S), S >= 0, B >= 0, is_const(zero, p.q_ctxs@[0], 0), is_const(one, p.q_ctxs@[0], 1),
      query_enc(qs, p, s, m, q, sv.first_dim as int, sv.dim as nat, k, mu, B), 0 <= a < k - 1, 0 <= u < sv.dim, sv.dim * (k - 1) <= p.degree,
    ensures encs_bit(rgs[a * sv.dim + u], s, cf, u == q[a + 1], zero, one, sel_noise(*p.q_ctxs@[0], b, S, leaf_noise(*p.q_ctxs@[0], b, B))),
{
    lemma_level0(arcv(p), 0); let c = *p.q_ctxs@[0]; let d = sv.dim as nat; let x = a * d + u; let h = hots(q, d, k); lemma_onehots(q, d, k, a, u); let bit = u == q[a + 1]; let E = leaf_noise(c, b, B); lemma_gal_noise(c, b); let n = c.degree as int; let G = gal_noise(c, b); assert((n - 1) * G >= 0) by(nonlinear_arith) requires n >= 1, G >= 0;
    assert(sel_rel(ev, p, us, x, rgs[x]));
    assert forall|j: int| 0 <= j < us.len() implies #[trigger] sel_leaf(us, x, p, s, E, bit, j) by {
        let ct = qs[j + 1]; let g = c.rns.garner@[j].v() as int; assert(unpacked(ev, ct, us[j], d * (k - 1))); let (r, tr, ninv) = choose|r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int| #[trigger] unpack_rel(ev, ct, r, tr, ninv) && us[j] == r.subrange(0, d * (k - 1));
        let mj = m[j + 1]; assert(is_phase(ct, s, mj) && ct2(ct, p)); lemma_unpack(ev, ct, r, tr, ninv, s, cf, b, mj, x); assert(sel_coef(m, p, h, B, j, x)); assert(us[j][x] == r[x]); lemma_clog(c, 0); assert(ct2(tr[clog(c) as int][x], p)); lemma_near_trans(r[x], s, n as nat, mj[x], g * b2i(bit), (n - 1) * G, B);
    }
    lemma_sel(ev, p, us, x, rgs[x], s, cf, b, S, E, bit, zero, one);
}
/// The answer: its phase is mu times the database entry at the coordinates, up to answer_noise.
pub proof fn lemma_retrieve(sv: Server, qs: Seq<BfvCipherText>, ev: Evaluation, p: Arc<BfvParameters>, ret: Seq<BfvCipherText>, lg: nat, k: nat, fc: Seq<BfvCipherText>, us: Seq<Seq<BfvCipherText>>, rgs: Seq<RgswCt>, dbs: Seq<Seq<BfvCipherText>>,
        s: Poly, cf: Seq<i64>, b: int, S: int, zero: Poly, one: Poly, m: Seq<Seq<int>>, q: Seq<usize>, mu: int, B: int, dz: Seq<Seq<int>>, T: int, a: nat)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, server_wf(sv, p, lg, k), decode_rel(sv, qs, ev, p, ret, k, fc, us, rgs, dbs), eval_enc(ev, p, cf, b), eval_sk(ev, p, cf, b), b >= 0, row_wf(s, p.q_ctxs@[0]), is_sk(s, cf), bounded(ints_i(cf), S), S >= 0, B >= 0, T >= 0, is_const(zero, p.q_ctxs@[0], 0), is_const(one, p.q_ctxs@[0], 1),
      query_enc(qs, p, s, m, q, sv.first_dim as int, sv.dim as nat, k, mu, B), qs.len() >= 1, q.len() == k, 0 <= q[0] < sv.first_dim, forall|j: int| 1 <= j < k ==> 0 <= #[trigger] q[j] < sv.dim, a < k,
      dz.len() == sv.db.len(), forall|v: int| 0 <= v < sv.db_scaled.len() ==> #[trigger] db_den(sv.db_scaled@, dz, p.q_ctxs@[0], T, v),
    ensures ({ let f = sv.first_dim as int; let d = sv.dim as int; let x = q[0] + f * row_at(q, d, k, 0); let r = row_at(q, d, k, a); let c = *p.q_ctxs@[0];
      0 <= x < sv.db.len() && 0 <= r < dbs[a as int].len() && ct2(dbs[a as int][r], p) && phase_near(dbs[a as int][r], s, zscale(dz[x], mu), answer_noise(c, b, B, S, T, f, d, a as int)) && ret.len() == 1 && row_at(q, d, k, (k - 1) as nat) == 0 }),
    decreases a,
{
    lemma_level0(arcv(p), 0); let c = *p.q_ctxs@[0]; let f = sv.first_dim as int; let d = sv.dim as int; let n = c.degree as int; let E = leaf_noise(c, b, B); let G = gal_noise(c, b); lemma_gal_noise(c, b); assert((n - 1) * G >= 0) by(nonlinear_arith) requires n >= 1, G >= 0;
    lemma_row_at(q, d as nat, lg, k, 0); lemma_row_at(q, d as nat, lg, k, a); lemma_rows_len(sv, p, lg, k, rgs, dbs, a); lemma_rows_len(sv, p, lg, k, rgs, dbs, 0); lemma_rows_len(sv, p, lg, k, rgs, dbs, (k - 1) as nat);
    let R0 = row_at(q, d, k, 0); let off = R0 * f; let x = q[0] + f * R0; assert(f * R0 == R0 * f) by(nonlinear_arith); let P = dpow(lg, (k - 1) as nat) as int; assert(off + f <= f * P) by(nonlinear_arith) requires off == R0 * f, R0 + 1 <= P, f >= 1; assert(off >= 0) by(nonlinear_arith) requires off == R0 * f, R0 >= 0, f >= 1;
    let N0 = f * (n * (E * T)); let b2 = sel_noise(c, b, S, E);
    if a == 0 {
        assert(first_rel(fc, sv.db_scaled@, off, f as nat, p, dbs[0][R0]));
        assert forall|v: int| 0 <= v < f implies #[trigger] first_leaf(fc, p, s, mu, q[0] as int, E, v) by {
            let ct = qs[0]; let (r, tr, ninv) = choose|r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int| #[trigger] unpack_rel(ev, ct, r, tr, ninv) && 0 <= f <= r.len() && fc == r.subrange(0, f);
            let m0 = m[0]; assert(is_phase(ct, s, m0) && ct2(ct, p)); lemma_unpack(ev, ct, r, tr, ninv, s, cf, b, m0, v); assert(fc[v] == r[v]); lemma_clog(c, 0); assert(ct2(tr[clog(c) as int][v], p)); lemma_near_trans(r[v], s, n as nat, m0[v], mu * b2i(v == q[0]), (n - 1) * G, B); }
        assert forall|v: int| 0 <= v < sv.db_scaled@.len() implies #[trigger] db_den(sv.db_scaled@, dz, s.context, T, v) by { assert(db_den(sv.db_scaled@, dz, p.q_ctxs@[0], T, v)); }
        lemma_first(fc, sv.db_scaled@, dz, off, f as nat, p, dbs[0][R0], s, mu, q[0] as int, E, T);
        let W0 = d * (2 * gal_noise(c, b2)); assert(0 * W0 == 0) by(nonlinear_arith);
    } else {
        let h = (a - 1) as nat; lemma_retrieve(sv, qs, ev, p, ret, lg, k, fc, us, rgs, dbs, s, cf, b, S, zero, one, m, q, mu, B, dz, T, h); let r = row_at(q, d, k, a); let prev = dbs[h as int]; assert(dim_rel(rgs, dbs, h as int, d as nat, p)); let out = dbs[a as int][r]; assert(row_rel(rgs, h * d, prev, r * d, d as nat, p, out)); let x1 = q[a as int] as int; assert(row_at(q, d, k, h) == r * d + x1);
        let so = h * d;
        assert forall|v: int| 0 <= v < d implies #[trigger] sel_bit(rgs, so, s, cf, x1, zero, one, b2, v) by { lemma_selectors(sv, qs, ev, p, k, fc, us, rgs, s, cf, b, S, zero, one, m, q, mu, B, h as int, v); }
        let Ba = answer_noise(c, b, B, S, T, f, d, h as int); let W = d * (2 * gal_noise(c, b2)); assert(a * W == h * W + W) by(nonlinear_arith) requires a == h + 1;
        assert(n * (S * E) >= 0) by { assert(S * E >= 0) by(nonlinear_arith) requires S >= 0, E >= 0; let t = S * E; assert(n * t >= 0) by(nonlinear_arith) requires n >= 0, t >= 0; }
        lemma_fold(rgs, so, prev, r * d, d as nat, p, out, s, cf, zero, one, b2, x1, zscale(dz[x], mu), Ba);
    }
}
// ------------------------------------------------------------------ decrypting the answer
pub proof fn lemma_phase_rows(ct: BfvCipherText, p: Arc<BfvParameters>, s: Poly, w: Seq<int>) requires bfv_wf(*p), p.q_ctxs.len() >= 1, ct2(ct, p), row_wf(s, p.q_ctxs@[0]), is_phase(ct, s, w), ensures has_phase(ct, s, w),
{
    lemma_level0(arcv(p), 0); let c = bctx(ct);
    assert forall|i: int| 0 <= i < ctx_n(c) implies fwd_post(#[trigger] c.ntt_ops@[i], modseq(w, cq(c, i)), ph_row(ct, s, i)) by {
        lemma_ctx(c, i); let q = cq(c, i); let o = c.ntt_ops@[i]; let y = ph_row(ct, s, i); let m = modseq(w, q); let n = c.degree as nat;
        assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]) < o.p.p && y[k] as int == bev(ints(m), 0, o.size as nat, npt(o, k)) % (o.p.p as int) by {
            let S = pc(s, i, k); let x = npt(o, k); let P = phs(ct.cts@, s, i, k, 2); reveal_with_fuel(phs, 3); lemma_pow0(S); lemma_pow1(S); assert(pc(ct.cts@[0], i, k) * 1 == pc(ct.cts@[0], i, k)); assert(P == ph2(ct, s, i, k)); lemma_mod_range(P, q); assert(cong(ph2(ct, s, i, k), zev(c, w, i, k), q));
            assert forall|j: int| 0 <= j < n implies cong(#[trigger] ints(m)[0 + j], w[0 + j], q) by { lemma_mod_range(w[j], q); lemma_mod_twice(w[j], q); assert(m[j] as int == w[j] % q); }
            lemma_bev_cong(ints(m), w, 0, n, x, x, q); }
    }
}
/// an answer whose phase is within N of mu times the entry decrypts to the entry when N is below the threshold
pub proof fn lemma_answer(sk: SecretKey, ct: BfvCipherText, p: Arc<BfvParameters>, s: Poly, mb: Poly, values: Seq<u64>, s2: Poly, entry: Seq<u64>, mu: int, N: int)
    requires bfv_wf(*p), p.q_ctxs.len() >= 1, ct2(ct, p), dec_rel(sk, ct, s, mb, values), row_wf(s2, p.q_ctxs@[0]), s2.context == s.context, is_sk(s2, sk.coeffs@), sk.coeffs@.len() == p.degree, 2 * p.plaintext_modulus_u64 <= p.ciphertext_moduli@[0],
      entry.len() == p.degree, forall|k: int| 0 <= k < entry.len() ==> #[trigger] entry[k] < p.plaintext_modulus_u64,
      phase_near(ct, s2, zscale(zpad(entry, p.degree as nat), mu), N), N >= 0,
      ({ let Q = bctx(ct).rns.product.v() as int; let t = p.plaintext_modulus_u64 as int; 0 <= Q - t * mu < 2 * t && below(Q, t, N + 2 * t) }),
    ensures values == entry,
{
    lemma_level0(arcv(p), 0); let c = bctx(ct); let Q = c.rns.product.v() as int; let t = p.plaintext_modulus_u64 as int; let n = p.degree as nat; let dz = zpad(entry, n); let zm = zscale(dz, mu);
    lemma_cq_pos(c);
    let w = choose|z: Seq<int>| near(z, zm, N) && #[trigger] is_phase(ct, s2, z); lemma_phase_rows(ct, p, s2, w);
    let u = Seq::new(n, |k: int| ((entry[k] * (Q % t)) % t) as u64); let V = vseq(Q, t, entry, u);
    assert forall|k: int| 0 <= k < entry.len() implies msg_ok(Q, t, entry[k] as int, #[trigger] V[k], Q * entry[k] - t * V[k]) && below(Q, t, w[k] - V[k]) by {
        let x = entry[k] as int; assert(entry[k] < p.plaintext_modulus_u64); lemma_mod_range(x * (Q % t), t); lemma_mod_twice(x * (Q % t), t); lemma_vseq(Q, t, entry, u, k); let e = w[k] - V[k]; assert(dz[k] == x && zm[k] == mu * x); assert(-N <= w[k] - zm[k] <= N); let y = mu * x - V[k]; let u1 = Q - t * mu; let uu = u[k] as int;
        assert(t * y == uu - u1 * x) by(nonlinear_arith) requires y == mu * x - V[k], u1 == Q - t * mu, t * V[k] == Q * x - uu;
        assert(0 <= u1 * x <= 2 * t * t) by(nonlinear_arith) requires 0 <= u1 < 2 * t, 0 <= x < t;
        assert(-(2 * t) <= y <= 2 * t) by(nonlinear_arith) requires -(2 * t * t) <= t * y, t * y <= t, t >= 2;
        let ae = iabs(e); let M = N + 2 * t; assert(ae <= M); assert(t * ae <= t * M) by(nonlinear_arith) requires ae <= M, t >= 2;
    }
    assert forall|k: int| 0 <= k < entry.len() implies below(Q, t, #[trigger] w[k] - V[k]) by { assert(msg_ok(Q, t, entry[k] as int, V[k], Q * entry[k] - t * V[k])); }
    lemma_decrypt(sk, ct, s, mb, values, s2, w, entry, V);
}
