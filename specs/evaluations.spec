== evaluations::Evaluation::gen_x_pows
requires
    ctx_wf(**ctx), n == ctx.degree,
ensures
    ret.len() == clog(**ctx), forall|i: int| 0 <= i < ret.len() ==> poly_wf(#[trigger] ret@[i]) && ret@[i].context == *ctx && ret@[i].representation == Representation::PowerBasis && den_int(ret@[i], xpow(n as nat, i as nat)),
entry
    let ghost L = clog(arcv(*ctx)); let ghost c = arcv(*ctx);
    proof { lemma_clog(arcv(*ctx), 0); }
before 0
    proof { lemma_ilog(L, n, $n as nat); }
isolate 0
inv 0
    ctx_wf(**ctx), c == **ctx, n == ctx.degree, n == pow2(L), L < 61, $n == L, polys.len() == $i, forall|i: int| 0 <= i < $i ==> poly_wf(#[trigger] polys@[i]) && polys@[i].context == *ctx && polys@[i].representation == Representation::PowerBasis && den_int(polys@[i], xpow(n as nat, i as nat)),
begin 0
    proof { lemma_pow_pow2($i as nat); lemma_pow2_strict2($i as nat, L); }
let xi
    proof { assert forall|j: int, k: int| 0 <= j < ctx_n(c) && 0 <= k < c.degree implies #[trigger] xi.coefficients.rows@[j]@[k] == (-(coeffs@[k] as int % cq(c, j))) % cq(c, j) by { } lemma_xpow_den(xi, coeffs@, i as nat, n as nat); }

== evaluations::Evaluation::unpack
refuses
requires
    bct_wf(ct), ct.cts.len() == 2, ct.level == 0, bfv_wf(*ct.params), eval_wf(*this, ct.params),
ensures
    ret.len() == ct.params.degree, forall|j: int| 0 <= j < ret.len() ==> ct2(#[trigger] ret@[j], ct.params),
    exists|tr: Seq<Seq<BfvCipherText>>, ninv: int| #[trigger] unpack_rel(*this, ct, ret@, tr, ninv),
entry
    proof { lemma_level0(arcv(ct.params), ct.level as int); }
    let ghost p = ct.params; let ghost P = arcv(p); let ghost cx = qctx(P, ct.level as int); let ghost ct0 = ct; let ghost L = clog(cx); let ghost ca = qarc(P, ct.level as int); let ghost N = ct.params.degree as int;
    proof { lemma_ctx(cx, 0); lemma_clog(cx, 0); lemma_prod2(cx); assert forall|l: nat| (#[trigger] pow2(l) <= ct.params.degree < pow2(l + 1)) implies l == L by { lemma_ilog(L, ct.params.degree, l); } }
inv 0
    $n == 2, ct.cts.len() == 2, ct.params == p, ct.level == ct0.level, forall|j: int| 0 <= j < 2 ==> row_wf(#[trigger] ct.cts@[j], ca), bct_wf(ct0), ct0.cts.len() == 2, ca == ct0.params.q_ctxs@[ct0.level as int], cx == *ca,
    forall|j: int| $i <= j < 2 ==> #[trigger] ct.cts@[j] == ct0.cts@[j],
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(cx) && 0 <= k < cx.degree ==> #[trigger] bc(ct, j, i, k) == (bc(ct0, j, i, k) * n_inv_1.v()) % cq(cx, i),
begin 0
    let ghost ct1 = ct; let ghost j0 = $i as int;
end 0
    proof { assert forall|j: int, i: int, k: int| 0 <= j < j0 + 1 && 0 <= i < ctx_n(cx) && 0 <= k < cx.degree implies #[trigger] bc(ct, j, i, k) == (bc(ct0, j, i, k) * n_inv_1.v()) % cq(cx, i) by { if j < j0 { assert(ct.cts@[j] == ct1.cts@[j]); assert(bc(ct1, j, i, k) == (bc(ct0, j, i, k) * n_inv_1.v()) % cq(cx, i)); } else { assert(ct1.cts@[j] == ct0.cts@[j]); assert(ct.cts@[j].coefficients.rows@[i]@[k] == (pc(ct1.cts@[j], i, k) * n_inv_1.v()) % cq(cx, i)); } } 
      assert forall|j: int| 0 <= j < 2 implies row_wf(#[trigger] ct.cts@[j], ca) by { if j != j0 { assert(ct.cts@[j] == ct1.cts@[j]); } } }
let bits_ct
    let ghost ninv = n_inv_1.v() as int; let ghost mut tr: Seq<Seq<BfvCipherText>> = seq![bits_ct@]; let ghost ctn = ct;
    proof { assert(ct2(ctn, p)); assert forall|j: int| 0 <= j < N implies ct2(#[trigger] bits_ct@[j], p) by { } }
isolate 1
before 1
    proof { lemma_ilog(L, n, $n as nat); }
inv 1
    $n == L, n == N, N == pow2(L), 3 <= L < 61, p.degree == N, bfv_wf(*p), ctx_wf(cx), cx == *ca, ca == p.q_ctxs@[0], cx.degree == N, L == clog(cx), eval_wf(*this, p), x_pows.len() == L, bits_ct.len() == N, tr.len() == $i + 1, tr[$i as int] == bits_ct@,
    forall|i: int| 0 <= i < L ==> poly_wf(#[trigger] x_pows@[i]) && x_pows@[i].context == ca && x_pows@[i].representation == Representation::PowerBasis && den_int(x_pows@[i], xpow(N as nat, i as nat)),
    forall|a: int| 0 <= a <= $i ==> (#[trigger] tr[a]).len() == N,
    forall|a: int, j: int| 0 <= a <= $i && 0 <= j < N ==> ct2(#[trigger] tr[a][j], p),
    forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(cx) && 0 <= k < cx.degree ==> #[trigger] bc(tr[0][0], j, i, k) == bc(ctn, j, i, k),
    forall|a: int, j: int| 0 <= a < $i && 0 <= j < pow2(a as nat) ==> #[trigger] tnode(*this, p, tr, a, j),
begin 1
    let ghost b0 = bits_ct@; let ghost dep = $i as nat; let ghost w = pow2(dep) as int; let ghost tr0 = tr;
    proof { lemma_shl1(dep, L); lemma_pow2_strict2(dep, L); lemma_ek(N, dep, L); assert(b0 == tr[dep as int]); assert forall|j: int| 0 <= j < N implies ct2(#[trigger] b0[j], p) by { assert(ct2(tr[dep as int][j], p)); } }
isolate 2
inv 2
    $n == w, n == N, 1 <= w, 2 * w <= N, w == pow2(dep), dep < L, L == clog(cx), i == dep, L < 61, p.degree == N, bfv_wf(*p), ctx_wf(cx), cx == *ca, ca == p.q_ctxs@[0], cx.degree == N, eval_wf(*this, p), bits_ct.len() == N, b0.len() == N, exponent == ek(N, dep), x_pows.len() == L, (1usize << i) == w,
    poly_wf(x_pows@[dep as int]) && x_pows@[dep as int].context == ca && x_pows@[dep as int].representation == Representation::PowerBasis && den_int(x_pows@[dep as int], xpow(N as nat, dep)),
    forall|j: int| 0 <= j < N ==> ct2(#[trigger] bits_ct@[j], p), forall|j: int| $i <= j < w ==> #[trigger] bits_ct@[j] == b0[j],
    forall|j: int| 0 <= j < $i ==> node(*this, p, #[trigger] b0[j], bits_ct@[j], bits_ct@[j + w], dep),
begin 2
    let ghost b1 = bits_ct@; let ghost j0 = $i as int;
    proof { assert(ct2(b1[j0], p)); }
let c_odd
    let ghost od0 = c_odd;
end 2
    proof { 
      assert forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(cx) && 0 <= k < cx.degree implies #[trigger] bc(c_odd, x, i, k) == (bc(od0, x, i, k) * pc(x_p, i, k)) % cq(cx, i) by { if x == 0 { assert(c_odd.cts@[0].coefficients.rows@[i]@[k] == (pc(od0.cts@[0], i, k) * pc(x_p, i, k)) % cq(cx, i)); } else { assert(c_odd.cts@[1].coefficients.rows@[i]@[k] == (pc(od0.cts@[1], i, k) * pc(x_p, i, k)) % cq(cx, i)); } }
      assert(xp_ok(x_p, ca, dep));
      assert(split(b0[j0], c_r, x_p, c_even, c_odd));
      let key = this.gk.m()[exponent];
      let (d, r0) = choose|d: Poly, r0: Poly| #[trigger] gal_out(key, b0[j0], c_r, d, r0);
      assert(ct2(c_odd, p)); assert(ct2(c_even, p));
      assert(node_of(*this, p, b0[j0], c_even, c_odd, dep, key, c_r, d, r0, x_p));
      assert(bits_ct@ == b1.update(j0, c_even).update(j0 + w, c_odd));
      assert forall|j: int| 0 <= j < N implies ct2(#[trigger] bits_ct@[j], p) by { assert(ct2(b1[j], p)); }
      assert forall|j: int| 0 <= j < j0 + 1 implies node(*this, p, #[trigger] b0[j], bits_ct@[j], bits_ct@[j + w], dep) by { if j < j0 { assert(node(*this, p, b0[j], b1[j], b1[j + w], dep)); assert(bits_ct@[j] == b1[j] && bits_ct@[j + w] == b1[j + w]); } }
    }
end 1
    proof { tr = tr.push(bits_ct@); let b2 = bits_ct@;
      assert forall|a: int| 0 <= a <= dep + 1 implies (#[trigger] tr[a]).len() == N by { if a <= dep { assert(tr[a] == tr0[a]); } }
      assert forall|a: int, j: int| 0 <= a <= dep + 1 && 0 <= j < N implies ct2(#[trigger] tr[a][j], p) by { if a <= dep { assert(tr[a] == tr0[a]); assert(ct2(tr0[a][j], p)); } else { assert(ct2(b2[j], p)); } }
      assert forall|a: int, j: int| 0 <= a < dep + 1 && 0 <= j < pow2(a as nat) implies #[trigger] tnode(*this, p, tr, a, j) by { assert(tr[a] == tr0[a]); if a < dep { assert(tr[a + 1] == tr0[a + 1]); assert(tnode(*this, p, tr0, a, j)); } else { assert(node(*this, p, b0[j], b2[j], b2[j + w], dep)); } }
      assert(tr[0] == tr0[0]);
    }
exit
    proof { 
      assert forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(cx) && 0 <= k < cx.degree implies #[trigger] bc(tr[0][0], j, i, k) == (bc(ct0, j, i, k) * ninv) % cq(cx, i) by { assert(bc(tr[0][0], j, i, k) == bc(ctn, j, i, k)); assert(bc(ctn, j, i, k) == (bc(ct0, j, i, k) * ninv) % cq(cx, i)); }
      assert forall|j: int| 0 <= j < ret.len() implies ct2(#[trigger] ret@[j], p) by { assert(ct2(tr[L as int][j], p)); }
      assert(unpack_rel(*this, ct0, ret@, tr, ninv)); }

== evaluations::Client::encode
refuses
requires
    1 <= query_dims.len() <= 0x1000, this.dim >= 1, pow(this.dim as int, (query_dims.len() - 1) as nat) < 0x1_0000_0000_0000_0000,
ensures
    forall|i: int| 0 <= i < query_dims.len() ==> #[trigger] query_dims@[i] < (if i == 0 { this.first_dim } else { this.dim }),
    db_rows as int / (this.first_dim as int) / pow(this.dim as int, (query_dims.len() - 1) as nat) == 1,
    ret@ == onehot(this.first_dim as nat, query_dims@[0] as int) + hots(query_dims@, this.dim as nat, query_dims.len() as nat),
entry
    let ghost d = this.dim as nat; let ghost qd = query_dims@;
    proof { lemma_pow_positive(this.dim as int, (query_dims.len() - 1) as nat); }
inv 0
    $n == this.first_dim, $out@ =~= onehot(this.first_dim as nat, query_dims@[0] as int).take($i as int),
let first_dim_bfv
    proof { assert(first_dim_bfv@ =~= onehot(this.first_dim as nat, query_dims@[0] as int)); }
    let ghost fd = first_dim_bfv@;
inv 1
    $n == query_dims.len(), d == this.dim, qd == query_dims@, 1 <= $i <= $n, rgsws@ == hots(qd, d, $i as nat), forall|i: int| 1 <= i < $i ==> #[trigger] query_dims@[i] < this.dim,
begin 1
    let ghost r0 = rgsws@; let ghost a = $i as int;
inv 2
    $n == d, d == this.dim, 0 <= a < query_dims.len(), rgsws@ =~= r0 + onehot(d, qd[a] as int).take($i as int), qd == query_dims@,
end 1
    proof { assert(onehot(d, qd[a] as int).take(d as int) =~= onehot(d, qd[a] as int)); }
inv 3
    $n == rgsws.len(), first_dim_bfv@ =~= fd + rgsws@.take($i as int),
exit
    proof { assert(rgsws@.take(rgsws.len() as int) =~= rgsws@); }

== evaluations::Server::new
requires
    bfv_wf(**params), forall|j: int| 0 <= j < db.len() ==> (#[trigger] db@[j]).values.len() <= params.degree,
ensures
    ret.first_dim == first_dim, ret.dim == dim, ret.db@ == db@, ret.db_scaled.len() == db.len(),
    forall|j: int| 0 <= j < db.len() ==> row_wf(#[trigger] ret.db_scaled@[j], params.q_ctxs@[0]) && den_int(ret.db_scaled@[j], zpad(db@[j].values@, params.degree as nat)),
entry
    proof { lemma_level0(arcv(*params), 0); }
inv 0
    $n == db.len(), $out.len() == $i, bfv_wf(**params), params.q_ctxs.len() >= 1, ctx_wf(*params.q_ctxs@[0]), params.q_ctxs@[0].degree == params.degree, forall|j: int| 0 <= j < db.len() ==> (#[trigger] db@[j]).values.len() <= params.degree,
    forall|j: int| 0 <= j < $i ==> row_wf(#[trigger] $out@[j], params.q_ctxs@[0]) && den_int($out@[j], zpad(db@[j].values@, params.degree as nat)),
begin 0
    let ghost j0 = $i as int; let ghost o0 = $out@;
let pt
    let ghost pt0 = pt;
end 0
    proof { lemma_zpad(pt0, pt, db@[j0].values@); }

== evaluations::Evaluation::build
refuses
requires
    bfv_wf(**params), sk.params == *params, sk.coeffs.len() == params.degree, params.degree <= 0x4000_0000,
ensures
    eval_wf(ret, *params), eval_enc(ret, *params, sk.coeffs@, 2 * params.variance), eval_sk(ret, *params, sk.coeffs@, 2 * params.variance),
entry
    let ghost P = arcv(*params); let ghost p = *params; let ghost L = clog(qctx(P, 0)); let ghost c = qctx(P, 0); let ghost cf = sk.coeffs@; let ghost N = params.degree as int; let ghost v = 2 * params.variance;
    proof { lemma_level0(P, 0); lemma_clog(c, 0); lemma_ctx(c, 0); }
before 0
    proof { lemma_ilog(L, n, $n as nat); }
inv 0
    $n == L, n == N, N == pow2(L), 3 <= L < 61, p == *params, P == *p, c == *p.q_ctxs@[0], L == clog(c), bfv_wf(P), ctx_wf(c), c.degree == N, P.degree == N, N <= 0x4000_0000, P.q_ctxs.len() >= 1, sk.params == p, sk.coeffs.len() == N, cf == sk.coeffs@, v == 2 * P.variance,
    forall|k: usize| #[trigger] gk_map.m().dom().contains(k) ==> gal_at(gk_map.m()[k], p, k as int) && gal_any(gk_map.m()[k], cf, v),
    forall|i: nat| i < $i ==> gk_map.m().dom().contains((#[trigger] ek(N, i)) as usize),
begin 0
    let ghost dep = $i as nat; let ghost m0 = gk_map.m();
    proof { lemma_pow_pow2(dep); lemma_pow2_strict2(dep, L); lemma_ek(N, dep, L); lemma_pow2_pos((L - dep) as nat); lemma_small_mod(dep, 0x1_0000_0000); lemma_small_mod(ek(N, dep) as nat, (2 * N) as nat); }
end 0
    proof { assert(k == ek(N, dep)); assert forall|x: usize| #[trigger] gk_map.m().dom().contains(x) implies gal_at(gk_map.m()[x], p, x as int) && gal_any(gk_map.m()[x], cf, v) by { if x != k { assert(m0.dom().contains(x)); } }
      assert forall|i: nat| i < dep + 1 implies gk_map.m().dom().contains((#[trigger] ek(N, i)) as usize) by { if i < dep { assert(m0.dom().contains(ek(N, i) as usize)); } } }
let m
    let ghost mm = m;
exit
    proof { lemma_sk(mm, m, cf);
      let (s, sm, z0, z1) = choose|s: Poly, sm: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] rgsw_enc(ret.sk_rgsw, s, sm, m, cf, z0, z1, v as int); assert(rgsw_sk(ret.sk_rgsw, s, sm, m, cf, z0, z1, v as int)); }

== evaluations::Server::decode
refuses
requires
    bfv_wf(**params), eval_wf(*eval_key, *params), rgsw_wf(eval_key.sk_rgsw), eval_key.sk_rgsw.ksk0.ct_context == params.q_ctxs@[0],
    query_cts.len() >= 1, forall|j: int| 0 <= j < query_cts.len() ==> ct2(#[trigger] query_cts@[j], *params),
    exists|lg: nat, k: nat| #[trigger] server_wf(*this, *params, lg, k),
ensures
    forall|j: int| 0 <= j < ret.len() ==> ct2(#[trigger] ret@[j], *params),
    forall|lg: nat, k: nat| #[trigger] server_wf(*this, *params, lg, k) ==> exists|fc: Seq<BfvCipherText>, us: Seq<Seq<BfvCipherText>>, rgs: Seq<RgswCt>, dbs: Seq<Seq<BfvCipherText>>| #[trigger] decode_rel(*this, query_cts@, *eval_key, *params, ret@, k, fc, us, rgs, dbs),
entry
    let ghost (lg, k) = choose|lg: nat, k: nat| #[trigger] server_wf(*this, *params, lg, k); let ghost P = arcv(*params); let ghost p = *params; let ghost c = qctx(P, 0); let ghost ca = qarc(P, 0); let ghost Q = query_cts@; let ghost f = this.first_dim as int; let ghost d = this.dim as int; let ghost M = ctx_n(c); let ghost cnt = d * (k - 1); let ghost sv = *this; let ghost ev = *eval_key;
    proof { lemma_level0(P, 0); lemma_ctx(c, 0); lemma_clog(c, 0); assert(ct2(Q[0], p)); assert(cnt >= 0) by(nonlinear_arith) requires cnt == d * (k - 1), d >= 0, k >= 1; }
let first_dim_cts
    let ghost fall = first_dim_cts@;
let dimensions
    let ghost fc = first_dim_cts@;
    proof { assert(unpacked(ev, Q[0], fc, f)); }
before 0
    proof { lemma_dims(sv, p, lg, k, 0); assert(dpow(lg, 0) == 1); assert(k - 1 <= P.degree) by(nonlinear_arith) requires d * (k - 1) <= P.degree, d >= 2, k >= 1; }
inv 0
    1 <= dimensions <= k, k - 1 <= P.degree, server_wf(sv, p, lg, k), sv == *this, rows == sv.first_dim * dpow(lg, (dimensions - 1) as nat), rows <= sv.db.len(),
dec 0
    k - dimensions
begin 0
    let ghost dm = dimensions as nat;
    proof { lemma_dims(sv, p, lg, k, (dm - 1) as nat); lemma_dims(sv, p, lg, k, dm); if dm == k { assert(rows == sv.db.len()); } }
end 0
    proof { assert(rows == sv.first_dim * dpow(lg, dm)); }
after 0
    proof { lemma_dims(sv, p, lg, k, (dimensions - 1) as nat); assert(dimensions == k); assert((k - 1) * d == cnt) by(nonlinear_arith) requires cnt == d * (k - 1); }
let rgsws_count
    proof { assert(rgsws_count == cnt) by(nonlinear_arith) requires rgsws_count == (k - 1) * d, cnt == d * (k - 1); }
inv 1
    1 <= $i, $n == M + 1, vals.len() == $i - 1, forall|j: int| 0 <= j < vals.len() ==> unpacked(ev, Q[j + 1], #[trigger] vals@[j]@, cnt), forall|j: int, x: int| 0 <= j < vals.len() && 0 <= x < cnt ==> ct2(#[trigger] vals@[j]@[x], p), forall|j: int| 0 <= j < vals.len() ==> (#[trigger] vals@[j]).len() == cnt,
begin 1
    let ghost v0 = vals@; proof { assert(ct2(Q[$i as int], p)); }
let cts
    let ghost cs = cts@;
end 1
    proof { let j0 = v0.len() as int; assert(unpacked(ev, Q[j0 + 1], cs, cnt));
      assert forall|j: int| 0 <= j < vals.len() implies unpacked(ev, Q[j + 1], #[trigger] vals@[j]@, cnt) by { if j < j0 { assert(vals@[j]@ == v0[j]@); } }
      assert forall|j: int, x: int| 0 <= j < vals.len() && 0 <= x < cnt implies ct2(#[trigger] vals@[j]@[x], p) by { if j < j0 { assert(vals@[j]@ == v0[j]@); } } }
before 2
    let ghost us = Seq::new(vals.len() as nat, |j: int| vals@[j]@);
isolate 2
inv 2
    $n == cnt, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], bfv_wf(P), ctx_wf(c), M == ctx_n(c), P.ciphertext_moduli.len() == M, ev == *eval_key, rgsw_wf(ev.sk_rgsw), ev.sk_rgsw.ksk0.ct_context == ca, vals.len() == M, P.q_ctxs.len() >= 1, us.len() == M, forall|j: int| 0 <= j < M ==> us[j] == (#[trigger] vals@[j])@,
    forall|j: int, x: int| 0 <= j < vals.len() && 0 <= x < cnt ==> ct2(#[trigger] vals@[j]@[x], p), forall|j: int| 0 <= j < vals.len() ==> (#[trigger] vals@[j]).len() == cnt,
    rgsws.len() == $i, forall|x: int| 0 <= x < $i ==> sel_rel(ev, p, us, x, #[trigger] rgsws@[x]),
begin 2
    let ghost g0 = rgsws@; let ghost i0 = $i as int;
inv 3
    $n == M, lower_half.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] lower_half@[j] == us[j][i0], forall|j: int| 0 <= j < M ==> us[j] == (#[trigger] vals@[j])@,
begin 3
    let ghost l0 = lower_half@;
end 3
    proof { assert(vals@[$i as int]@[i0] == us[$i as int][i0]); }
inv 4
    $n == M, M == lower_half.len(), $out.len() == $i, forall|j: int| 0 <= j < M ==> ct2(#[trigger] lower_half@[j], p), forall|j: int| 0 <= j < $i ==> ct2(#[trigger] $out@[j], p),
    forall|j: int| 0 <= j < $i ==> ext_of(ev.sk_rgsw, lower_half@[j], (#[trigger] $out@[j]).cts@[0], $out@[j].cts@[1]),
before 4
    proof { assert forall|j: int| 0 <= j < M implies ct2(#[trigger] lower_half@[j], p) by { assert(ct2(vals@[j]@[i0], p)); assert(lower_half@[j] == us[j][i0]); } }
begin 4
    let ghost j0 = $i as int; let ghost o3 = $out@; proof { assert(ct2(lower_half@[j0], p)); }
end 4
    proof { let o = $out@; assert(o[j0].cts@.len() == 2); assert(ext_of(ev.sk_rgsw, lower_half@[j0], o[j0].cts@[0], o[j0].cts@[1]));
      assert forall|j: int| 0 <= j < j0 + 1 implies ext_of(ev.sk_rgsw, lower_half@[j], (#[trigger] o[j]).cts@[0], o[j].cts@[1]) by { if j < j0 { assert(o[j] == o3[j]); } } }
end 2
    proof { let rg = rgsws@[i0];
      assert forall|j: int| 0 <= j < M implies #[trigger] rg.ksk1.c0@[j] == us[j][i0].cts@[0] by { assert(lower_half@[j] == us[j][i0]); }
      assert forall|j: int| 0 <= j < M implies #[trigger] rg.ksk1.c1@[j] == us[j][i0].cts@[1] by { assert(lower_half@[j] == us[j][i0]); }
      assert forall|j: int| 0 <= j < M implies ext_of(ev.sk_rgsw, us[j][i0], #[trigger] rg.ksk0.c0@[j], rg.ksk0.c1@[j]) by { assert(lower_half@[j] == us[j][i0]); assert(ct2(upper_half@[j], p)); }
      assert(sel_rel(ev, p, us, i0, rg));
      assert forall|x: int| 0 <= x < i0 + 1 implies sel_rel(ev, p, us, x, #[trigger] rgsws@[x]) by { if x < i0 { assert(rgsws@[x] == g0[x]); } } }
before 5
    let ghost rg = rgsws@;
    proof { lemma_chunks(k - 1, d); assert((k - 1) * d == cnt) by(nonlinear_arith) requires cnt == d * (k - 1); }
isolate 5
inv 5
    $c == d, $n == k - 1, rg == rgsws@, rgsws.len() == cnt, rg.len() == cnt, cnt == (k - 1) * d, d >= 2, this.dim == d, $out.len() == $i, forall|a: int| 0 <= a < $i ==> (#[trigger] $out@[a]).len() == d, forall|a: int, u: int| 0 <= a < $i && 0 <= u < d ==> *(#[trigger] $out@[a]@[u]) == rg[a * d + u],
begin 5
    let ghost a0 = $i as int; let ghost o4 = $out@; proof { lemma_chunk_in(a0, k - 1, d); }
inv 6
    $n == d, $out.len() == $i, a0 * d + d <= cnt, rg == rgsws@, forall|u: int| 0 <= u < $i ==> *(#[trigger] $out@[u]) == rg[a0 * d + u],
end 5
    proof { let o = $out@; assert forall|a: int, u: int| 0 <= a < a0 + 1 && 0 <= u < d implies *(#[trigger] o[a]@[u]) == rg[a * d + u] by { if a < a0 { assert(o[a] == o4[a]); } } }
before 7
    let ghost W = dpow(lg, (k - 1) as nat) as int;
    proof { lemma_chunks(W, f); assert(f * W == W * f) by(nonlinear_arith); }
isolate 7
inv 7
    $n == W, $c == f, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], bfv_wf(P), ctx_wf(c), P.q_ctxs.len() >= 1, f == this.first_dim, f >= 1, sv == *this, this.db_scaled.len() == W * f, fc == first_dim_cts@, fc.len() == f, forall|u: int| 0 <= u < f ==> ct2(#[trigger] fc[u], p),
    forall|j: int| 0 <= j < sv.db_scaled.len() ==> row_wf(#[trigger] sv.db_scaled@[j], ca), $out.len() == $i, forall|r: int| 0 <= r < $i ==> first_rel(fc, sv.db_scaled@, r * f, f as nat, p, #[trigger] $out@[r]),
begin 7
    let ghost r0 = $i as int; let ghost o6 = $out@; proof { lemma_chunk_in(r0, W, f); }
inv 8
    $n == f, r0 * f + f <= W * f, 0 <= r0 * f, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], ctx_wf(c), P.q_ctxs.len() >= 1, sv == *this, this.db_scaled.len() == W * f, fc == first_dim_cts@, fc.len() == f, forall|u: int| 0 <= u < f ==> ct2(#[trigger] fc[u], p), forall|j: int| 0 <= j < sv.db_scaled.len() ==> row_wf(#[trigger] sv.db_scaled@[j], ca),
    $i > 0 ==> first_rel(fc, sv.db_scaled@, r0 * f, $i as nat, p, sum),
begin 8
    let ghost s0 = sum; let ghost u0 = $i as nat; proof { assert(ct2(fc[u0 as int], p)); assert(row_wf(sv.db_scaled@[r0 * f + u0], ca)); }
let product
    let ghost pr = product;
end 8
    proof { lemma_first_step(fc, sv.db_scaled@, r0 * f, u0, p, s0, pr, sum); }
end 7
    proof { let o = $out@; assert forall|r: int| 0 <= r < r0 + 1 implies first_rel(fc, sv.db_scaled@, r * f, f as nat, p, #[trigger] o[r]) by { if r < r0 { assert(o[r] == o6[r]); } } }
before 9
    let ghost mut dbs: Seq<Seq<BfvCipherText>> = seq![db@]; let ghost first = db@;
    proof { assert forall|r: int| 0 <= r < db.len() implies ct2(#[trigger] db@[r], p) by { assert(first_rel(fc, sv.db_scaled@, r * f, f as nat, p, first[r])); } }
isolate 9
inv 9
    $n == k - 1, k >= 1, lg == d, d == this.dim, d >= 2, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], bfv_wf(P), ctx_wf(c), P.q_ctxs.len() >= 1, rg.len() == (k - 1) * d, rgsws_by_dim.len() == k - 1, forall|a: int| 0 <= a < k - 1 ==> (#[trigger] rgsws_by_dim@[a]).len() == d, forall|a: int, u: int| 0 <= a < k - 1 && 0 <= u < d ==> *(#[trigger] rgsws_by_dim@[a]@[u]) == rg[a * d + u],
    forall|x: int| 0 <= x < rg.len() ==> rgsw_wf(#[trigger] rg[x]) && rg[x].ksk0.ct_context == ca, db.len() == dpow(lg, (k - 1 - $i) as nat), forall|r: int| 0 <= r < db.len() ==> ct2(#[trigger] db@[r], p),
    dbs.len() == $i + 1, dbs[$i as int] == db@, dbs[0] == first, forall|a: int| 0 <= a < $i ==> #[trigger] dim_rel(rg, dbs, a, d as nat, p),
begin 9
    let ghost a0 = $i as int; let ghost prev = db@; let ghost d8 = dbs; let ghost n2 = dpow(lg, (k - 1 - a0 - 1) as nat) as int;
    proof { lemma_shape(lg, k - 1 - a0); assert(prev.len() == n2 * d) by(nonlinear_arith) requires prev.len() == d * n2; lemma_chunks(n2, d); lemma_chunk_in(a0, k - 1, d); }
isolate 10
inv 10
    $n == n2, $c == d, d == this.dim, d >= 2, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], ctx_wf(c), P.q_ctxs.len() >= 1, prev == db@, prev.len() == db.len(), prev.len() == n2 * d, 0 <= a0 < k - 1, a0 == $i9, a0 * d + d <= rg.len(), a0 * d >= 0, rgsws_by_dim.len() == k - 1, forall|a: int| 0 <= a < k - 1 ==> (#[trigger] rgsws_by_dim@[a]).len() == d, forall|a: int, u: int| 0 <= a < k - 1 && 0 <= u < d ==> *(#[trigger] rgsws_by_dim@[a]@[u]) == rg[a * d + u],
    forall|x: int| 0 <= x < rg.len() ==> rgsw_wf(#[trigger] rg[x]) && rg[x].ksk0.ct_context == ca, forall|r: int| 0 <= r < prev.len() ==> ct2(#[trigger] prev[r], p), $out.len() == $i, forall|r: int| 0 <= r < $i ==> row_rel(rg, a0 * d, prev, r * d, d as nat, p, #[trigger] $out@[r]),
begin 10
    let ghost r0 = $i as int; let ghost o9 = $out@; let ghost mut ps: Seq<BfvCipherText> = Seq::empty(); proof { lemma_chunk_in(r0, n2, d); }
inv 11
    $n == d, d == this.dim, r0 * d + d <= prev.len(), r0 * d >= 0, p == *params, P == *p, c == *ca, ca == p.q_ctxs@[0], ctx_wf(c), P.q_ctxs.len() >= 1, prev == db@, 0 <= a0 < k - 1, a0 * d + d <= rg.len(), a0 * d >= 0, ps.len() == $i,
    forall|u: int| 0 <= u < $i ==> ct2(#[trigger] ps[u], p) && ext_of(rg[a0 * d + u], prev[r0 * d + u], ps[u].cts@[0], ps[u].cts@[1]), $i > 0 ==> sum_rel(ps, $i as nat, p, sum_1),
begin 11
    let ghost s0 = sum_1; let ghost u0 = $i as int; let ghost p0 = ps; proof { assert(ct2(prev[r0 * d + u0], p)); assert(*rgsws_by_dim@[a0]@[u0] == rg[a0 * d + u0]); assert(rgsw_wf(rg[a0 * d + u0])); }
let product 1
    let ghost pr = product_1;
end 11
    proof { assert(pr.cts@.len() == 2); assert(ct2(pr, p)); lemma_sum_step(p0, p, s0, pr, sum_1); ps = ps.push(pr);
      assert(ext_of(rg[a0 * d + u0], prev[r0 * d + u0], pr.cts@[0], pr.cts@[1]));
      assert forall|u: int| 0 <= u < u0 + 1 implies ct2(#[trigger] ps[u], p) && ext_of(rg[a0 * d + u], prev[r0 * d + u], ps[u].cts@[0], ps[u].cts@[1]) by { if u < u0 { assert(ps[u] == p0[u]); } } }
end 10
    proof { let o = $out@; assert(row_of(rg, a0 * d, prev, r0 * d, d as nat, p, o[r0], ps)); assert forall|r: int| 0 <= r < r0 + 1 implies row_rel(rg, a0 * d, prev, r * d, d as nat, p, #[trigger] o[r]) by { if r < r0 { assert(o[r] == o9[r]); } } }
end 9
    proof { dbs = dbs.push(db@); let nx = db@; assert(fold_rel(rg, a0, prev, nx, d as nat, p));
      assert forall|r: int| 0 <= r < nx.len() implies ct2(#[trigger] nx[r], p) by { let ps = choose|ps: Seq<BfvCipherText>| #[trigger] row_of(rg, a0 * d, prev, r * d, d as nat, p, nx[r], ps); }
      assert forall|a: int| 0 <= a < a0 + 1 implies #[trigger] dim_rel(rg, dbs, a, d as nat, p) by { assert(dbs[a] == d8[a]); if a < a0 { assert(dbs[a + 1] == d8[a + 1]); assert(dim_rel(rg, d8, a, d as nat, p)); } } }
exit
    proof { assert(decode_rel_a(sv, Q, ev, p, k, fc, us, rg)); assert(dbs.len() == k && dbs[k - 1] == ret@); assert(dbs[0].len() * f == sv.db.len()); assert forall|r: int| 0 <= r < dbs[0].len() implies first_rel(fc, sv.db_scaled@, r * f, f as nat, p, #[trigger] dbs[0][r]) by { assert(dbs[0][r] == first[r]); } assert forall|a: int| 0 <= a < k - 1 implies #[trigger] dim_rel(rg, dbs, a, sv.dim as nat, p) by { assert(dim_rel(rg, dbs, a, d as nat, p)); } assert(decode_rel(sv, Q, ev, p, ret@, k, fc, us, rg, dbs)); assert forall|lg2: nat, k2: nat| #[trigger] server_wf(*this, *params, lg2, k2) implies k2 == k by { lemma_k_unique(sv, p, lg, k, lg2, k2); } }
