// Answering a query: the relations between the intermediate values of Server::decode.
pub open spec fn unpacked(ev: Evaluation, ct: BfvCipherText, cts: Seq<BfvCipherText>, cnt: int) -> bool {
    exists|r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int| #[trigger] unpack_rel(ev, ct, r, tr, ninv) && 0 <= cnt <= r.len() && cts == r.subrange(0, cnt)
}
/// (r0, r1) is the external product of r with the first two components of ct
pub open spec fn ext_of(r: RgswCt, ct: BfvCipherText, r0: Poly, r1: Poly) -> bool {
    exists|d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly| #[trigger] ext_out(r, ct.cts@[0], ct.cts@[1], d0, d1, a0, a1, b0, b1, r0, r1)
}
/// rg is assembled from the i-th leaves of the queries (one per modulus)
pub open spec fn sel_rel(ev: Evaluation, p: Arc<BfvParameters>, us: Seq<Seq<BfvCipherText>>, i: int, rg: RgswCt) -> bool {
    &&& rgsw_wf(rg) && rg.ksk0.ct_context == p.q_ctxs@[0] && us.len() == ctx_n(*p.q_ctxs@[0])
    &&& (forall|j: int| 0 <= j < us.len() ==> #[trigger] rg.ksk1.c0@[j] == us[j][i].cts@[0]) && (forall|j: int| 0 <= j < us.len() ==> #[trigger] rg.ksk1.c1@[j] == us[j][i].cts@[1])
    &&& (forall|j: int| 0 <= j < us.len() ==> ext_of(ev.sk_rgsw, us[j][i], #[trigger] rg.ksk0.c0@[j], rg.ksk0.c1@[j]))
}
/// sum of the first u leaves times the database polynomials from place off, component x
pub open spec fn fsum(fc: Seq<BfvCipherText>, db: Seq<Poly>, off: int, x: int, i: int, k: int, u: nat) -> int decreases u { if u == 0 { 0 } else { fsum(fc, db, off, x, i, k, (u - 1) as nat) + bc(fc[u - 1], x, i, k) * pc(db[off + u - 1], i, k) } }
pub open spec fn first_rel(fc: Seq<BfvCipherText>, db: Seq<Poly>, off: int, f: nat, p: Arc<BfvParameters>, out: BfvCipherText) -> bool {
    let c = *p.q_ctxs@[0];
    ct2(out, p) && forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(out, x, i, k) == fsum(fc, db, off, x, i, k, f) % cq(c, i)
}
pub open spec fn csum(ps: Seq<BfvCipherText>, x: int, i: int, k: int, u: nat) -> int decreases u { if u == 0 { 0 } else { csum(ps, x, i, k, (u - 1) as nat) + bc(ps[u - 1], x, i, k) } }
/// out is the sum of the external products of d selectors from place so with d rows from place off
pub open spec fn row_of(rgs: Seq<RgswCt>, so: int, prev: Seq<BfvCipherText>, off: int, d: nat, p: Arc<BfvParameters>, out: BfvCipherText, ps: Seq<BfvCipherText>) -> bool {
    let c = *p.q_ctxs@[0];
    &&& ps.len() == d && (forall|u: int| 0 <= u < d ==> ct2(#[trigger] ps[u], p) && ext_of(rgs[so + u], prev[off + u], ps[u].cts@[0], ps[u].cts@[1]))
    &&& sum_rel(ps, d, p, out)
}
pub open spec fn sum_rel(ps: Seq<BfvCipherText>, d: nat, p: Arc<BfvParameters>, out: BfvCipherText) -> bool { let c = *p.q_ctxs@[0]; ct2(out, p) && forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(out, x, i, k) == csum(ps, x, i, k, d) % cq(c, i) }
pub open spec fn row_rel(rgs: Seq<RgswCt>, so: int, prev: Seq<BfvCipherText>, off: int, d: nat, p: Arc<BfvParameters>, out: BfvCipherText) -> bool { exists|ps: Seq<BfvCipherText>| #[trigger] row_of(rgs, so, prev, off, d, p, out, ps) }
/// one dimension folded: row r of next comes from rows r d .. r d + d - 1 of prev
pub open spec fn fold_rel(rgs: Seq<RgswCt>, a: int, prev: Seq<BfvCipherText>, next: Seq<BfvCipherText>, d: nat, p: Arc<BfvParameters>) -> bool {
    &&& prev.len() == next.len() * d
    &&& forall|r: int| 0 <= r < next.len() ==> row_rel(rgs, a * d, prev, r * d, d, p, #[trigger] next[r])
}
pub open spec fn decode_rel_a(sv: Server, qs: Seq<BfvCipherText>, ev: Evaluation, p: Arc<BfvParameters>, k: nat, fc: Seq<BfvCipherText>, us: Seq<Seq<BfvCipherText>>, rgs: Seq<RgswCt>) -> bool {
    let f = sv.first_dim as int; let cnt = sv.dim as nat * (k - 1);
    &&& k >= 1 && unpacked(ev, qs[0], fc, f) && us.len() == qs.len() - 1 && (forall|j: int| 0 <= j < us.len() ==> unpacked(ev, qs[j + 1], #[trigger] us[j], cnt))
    &&& rgs.len() == cnt && (forall|i: int| 0 <= i < cnt ==> sel_rel(ev, p, us, i, #[trigger] rgs[i]))
}
pub open spec fn decode_rel(sv: Server, qs: Seq<BfvCipherText>, ev: Evaluation, p: Arc<BfvParameters>, ret: Seq<BfvCipherText>, k: nat, fc: Seq<BfvCipherText>, us: Seq<Seq<BfvCipherText>>, rgs: Seq<RgswCt>, dbs: Seq<Seq<BfvCipherText>>) -> bool {
    let f = sv.first_dim as int; let d = sv.dim as nat;
    &&& decode_rel_a(sv, qs, ev, p, k, fc, us, rgs)
    &&& dbs.len() == k && dbs[k - 1] == ret && dbs[0].len() * f == sv.db.len() && (forall|r: int| 0 <= r < dbs[0].len() ==> first_rel(fc, sv.db_scaled@, r * f, f as nat, p, #[trigger] dbs[0][r]))
    &&& (forall|a: int| 0 <= a < k - 1 ==> #[trigger] dim_rel(rgs, dbs, a, d, p))
}
pub open spec fn dim_rel(rgs: Seq<RgswCt>, dbs: Seq<Seq<BfvCipherText>>, a: int, d: nat, p: Arc<BfvParameters>) -> bool { fold_rel(rgs, a, dbs[a], dbs[a + 1], d, p) }
/// d^j
pub open spec fn dpow(d: nat, j: nat) -> nat decreases j { if j == 0 { 1 } else { d * dpow(d, (j - 1) as nat) } }
/// first_dim dim^(k-1) rows, where lg is dim
pub open spec fn server_wf(sv: Server, p: Arc<BfvParameters>, lg: nat, k: nat) -> bool {
    &&& k >= 1 && lg >= 2 && sv.first_dim >= 1 && sv.dim == lg && sv.db.len() == sv.first_dim * dpow(lg, (k - 1) as nat) && sv.db_scaled.len() == sv.db.len()
    &&& sv.first_dim <= p.degree && sv.dim * (k - 1) <= p.degree
    &&& forall|j: int| 0 <= j < sv.db_scaled.len() ==> row_wf(#[trigger] sv.db_scaled@[j], p.q_ctxs@[0])
}
pub proof fn lemma_addmod(a: int, b: int, q: int) requires q > 0, ensures ((a % q) + (b % q)) % q == (a + b) % q, { lemma_mod_twice(a, q); lemma_mod_twice(b, q); lemma_cong_add(a % q, a, b % q, b, q); }
pub proof fn lemma_addmod1(a: int, b: int, q: int) requires q > 0, ensures ((a % q) + b) % q == (a + b) % q, { lemma_mod_twice(a, q); lemma_cong_add(a % q, a, b, b, q); }
pub proof fn lemma_dpow(d: nat, i: nat, j: nat) requires d >= 2, i < j, ensures 1 <= dpow(d, i) < dpow(d, j), decreases j,
{ if i + 1 < j { lemma_dpow(d, i, (j - 1) as nat); } else { lemma_dpow_pos(d, i); } lemma_dpow_pos(d, i); let x = dpow(d, (j - 1) as nat) as int; assert(d * x >= 2 * x) by(nonlinear_arith) requires d >= 2, x >= 0; }
pub proof fn lemma_dpow_pos(d: nat, i: nat) requires d >= 1, ensures dpow(d, i) >= 1, decreases i,
{ if i > 0 { lemma_dpow_pos(d, (i - 1) as nat); let x = dpow(d, (i - 1) as nat) as int; assert(d * x >= 1) by(nonlinear_arith) requires d >= 1, x >= 1; } }
/// the sizes first_dim dim^j below and at the number of rows
pub proof fn lemma_dims(sv: Server, p: Arc<BfvParameters>, lg: nat, k: nat, j: nat) requires server_wf(sv, p, lg, k), ensures dpow(lg, j) >= 1, j < k - 1 ==> sv.first_dim * dpow(lg, j) < sv.db.len() && sv.first_dim * dpow(lg, j) * lg <= sv.db.len(), j + 1 == k ==> sv.first_dim * dpow(lg, j) == sv.db.len(), sv.first_dim * dpow(lg, j) * lg == sv.first_dim * dpow(lg, j + 1),
{
    lemma_dpow_pos(lg, j); let f = sv.first_dim as int; let P = dpow(lg, j) as int; let d = lg as int; assert(f * P * d == f * (d * P)) by(nonlinear_arith); assert(dpow(lg, j + 1) == lg * dpow(lg, j));
    if j < k - 1 { let Q = dpow(lg, (k - 1) as nat) as int; lemma_dpow(lg, j, (k - 1) as nat); assert(f * P < f * Q) by(nonlinear_arith) requires P < Q, f >= 1; let R = dpow(lg, j + 1) as int; if j + 1 < k - 1 { lemma_dpow(lg, j + 1, (k - 1) as nat); } assert(f * R <= f * Q) by(nonlinear_arith) requires R <= Q, f >= 1; }
}
pub proof fn lemma_chunks(n: int, d: int) requires d > 0, n >= 0, ensures chunks_len_s(n * d, d) == n,
{ lemma_small_mod(0, d as nat); lemma_cong_intro(n * d, 0, n, d); lemma_div_split(n, 0, d); lemma_basic_div(0, d); }
pub proof fn lemma_chunk_in(r: int, n: int, d: int) requires 0 <= r < n, d > 0, ensures r * d + d <= n * d, r * d >= 0,
{ assert(r * d + d <= n * d) by(nonlinear_arith) requires r + 1 <= n, d > 0; assert(r * d >= 0) by(nonlinear_arith) requires r >= 0, d > 0; }
pub proof fn lemma_shape(lg: nat, m: int) requires m >= 1, ensures dpow(lg, m as nat) == lg * dpow(lg, (m - 1) as nat), {}
pub proof fn lemma_csum_push(ps: Seq<BfvCipherText>, y: BfvCipherText, x: int, i: int, k: int, u: nat) requires u <= ps.len(), ensures csum(ps.push(y), x, i, k, u) == csum(ps, x, i, k, u), decreases u,
{ if u > 0 { lemma_csum_push(ps, y, x, i, k, (u - 1) as nat); assert(ps.push(y)[u - 1] == ps[u - 1]); } }
/// adding one more product to the running sum
pub proof fn lemma_first_step(fc: Seq<BfvCipherText>, db: Seq<Poly>, off: int, u: nat, p: Arc<BfvParameters>, sum: BfvCipherText, prod: BfvCipherText, next: BfvCipherText)
    requires ctx_wf(*p.q_ctxs@[0]), u > 0 ==> first_rel(fc, db, off, u, p, sum), ct2(prod, p), ct2(next, p), u == 0 ==> next == prod,
      forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(*p.q_ctxs@[0]) && 0 <= k < p.q_ctxs@[0].degree ==> #[trigger] bc(prod, x, i, k) == (bc(fc[u as int], x, i, k) * pc(db[off + u], i, k)) % cq(*p.q_ctxs@[0], i),
      u > 0 ==> forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(*p.q_ctxs@[0]) && 0 <= k < p.q_ctxs@[0].degree ==> #[trigger] bc(next, x, i, k) == (bc(sum, x, i, k) + bc(prod, x, i, k)) % cq(*p.q_ctxs@[0], i),
    ensures first_rel(fc, db, off, u + 1, p, next),
{
    let c = *p.q_ctxs@[0];
    assert forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] bc(next, x, i, k) == fsum(fc, db, off, x, i, k, u + 1) % cq(c, i) by {
        lemma_ctx(c, i); let q = cq(c, i); let t = bc(fc[u as int], x, i, k) * pc(db[off + u], i, k); assert(bc(prod, x, i, k) == t % q); assert(fsum(fc, db, off, x, i, k, u + 1) == fsum(fc, db, off, x, i, k, u) + t);
        if u > 0 { assert(bc(sum, x, i, k) == fsum(fc, db, off, x, i, k, u) % q); lemma_addmod(fsum(fc, db, off, x, i, k, u), t, q); } else { assert(fsum(fc, db, off, x, i, k, 0) == 0); } }
}
pub proof fn lemma_sum_step(ps: Seq<BfvCipherText>, p: Arc<BfvParameters>, sum: BfvCipherText, prod: BfvCipherText, next: BfvCipherText)
    requires ctx_wf(*p.q_ctxs@[0]), ps.len() > 0 ==> sum_rel(ps, ps.len(), p, sum), ct2(prod, p), ct2(next, p), ps.len() == 0 ==> next == prod,
      ps.len() > 0 ==> forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(*p.q_ctxs@[0]) && 0 <= k < p.q_ctxs@[0].degree ==> #[trigger] bc(next, x, i, k) == (bc(sum, x, i, k) + bc(prod, x, i, k)) % cq(*p.q_ctxs@[0], i),
    ensures sum_rel(ps.push(prod), ps.len() + 1, p, next),
{
    let c = *p.q_ctxs@[0]; let u = ps.len();
    assert forall|x: int, i: int, k: int| 0 <= x < 2 && 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] bc(next, x, i, k) == csum(ps.push(prod), x, i, k, u + 1) % cq(c, i) by {
        lemma_ctx(c, i); let q = cq(c, i); lemma_csum_push(ps, prod, x, i, k, u); assert(ps.push(prod)[u as int] == prod); let t = bc(prod, x, i, k); lemma_coef(prod, p, x, i, k); lemma_small_mod(t as nat, q as nat);
        if u > 0 { assert(bc(sum, x, i, k) == csum(ps, x, i, k, u) % q); lemma_addmod1(csum(ps, x, i, k, u), t, q); } else { assert(csum(ps, x, i, k, 0) == 0); } }
}
pub proof fn lemma_coef(a: BfvCipherText, p: Arc<BfvParameters>, x: int, i: int, k: int) requires ct2(a, p), 0 <= x < 2, 0 <= i < ctx_n(*p.q_ctxs@[0]), 0 <= k < p.q_ctxs@[0].degree, ensures 0 <= bc(a, x, i, k) < cq(*p.q_ctxs@[0], i),
{ let y = a.cts@[x]; assert(poly_wf(y)); let c = *p.q_ctxs@[0]; lemma_ctx(c, i); assert(y.coefficients.rows@[i]@[k] < y.context.moduli_64@[i]); }
pub proof fn lemma_k_unique(sv: Server, p: Arc<BfvParameters>, lg: nat, k: nat, lg2: nat, k2: nat) requires server_wf(sv, p, lg, k), server_wf(sv, p, lg2, k2), ensures k == k2, lg == lg2,
{
    let f = sv.first_dim as int; let A = dpow(lg, (k - 1) as nat) as int; let C = dpow(lg, (k2 - 1) as nat) as int; assert(A == C) by(nonlinear_arith) requires f * A == f * C, f >= 1;
    if k < k2 { lemma_dpow(lg, (k - 1) as nat, (k2 - 1) as nat); } if k2 < k { lemma_dpow(lg, (k2 - 1) as nat, (k - 1) as nat); }
}
