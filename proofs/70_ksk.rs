// Key switching: integer polynomials at the evaluation points.
/// value of the integer polynomial z at evaluation point (i, k)
pub open spec fn zev(c: RqContext, z: Seq<int>, i: int, k: int) -> int { bev(z, 0, c.degree as nat, npt(c.ntt_ops@[i], k)) }
pub open spec fn zadd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| a[k] + b[k]) }
pub open spec fn zzero(n: nat) -> Seq<int> { Seq::new(n, |k: int| 0int) }
pub proof fn lemma_zadd(c: RqContext, a: Seq<int>, b: Seq<int>, i: int, k: int)
    requires ctx_wf(c), a.len() == c.degree, b.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, ensures cong(zev(c, zadd(a, b), i, k), zev(c, a, i, k) + zev(c, b, i, k), cq(c, i)),
{
    let n = c.degree as nat; let x = npt(c.ntt_ops@[i], k); let q = cq(c, i); let ab = a + b; let s = zadd(a, b); lemma_ctx(c, i);
    lemma_bev_off(ab, 0, a, 0, n, x); lemma_bev_off(ab, n as int, b, 0, n, x);
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] s[0 + j], 1 * ab[0 + j] + 1 * ab[n + j], q) by { assert(ab[j] == a[j] && ab[n + j] == b[j]); }
    lemma_bev_lin(s, 0, ab, 0, 1, n as int, 1, n, x, q);
}
pub proof fn lemma_zzero(c: RqContext, i: int, k: int) requires ctx_wf(c), ensures zev(c, zzero(c.degree as nat), i, k) == 0,
{ lemma_bev_zero(zzero(c.degree as nat), c.degree as nat, npt(c.ntt_ops@[i], k)); }
pub proof fn lemma_bev_zero(s: Seq<int>, n: nat, x: int) requires forall|k: int| 0 <= k < n ==> #[trigger] s[k] == 0, n <= s.len(), ensures bev(s, 0, n, x) == 0, decreases n,
{ if n > 0 { lemma_bev_zero(s, (n - 1) as nat, x); let P = pow(x, (n - 1) as nat); assert(s[0 + n - 1] == 0); assert(0 * P == 0); } }
pub proof fn lemma_zmul(c: RqContext, a: Seq<int>, b: Seq<int>, i: int, k: int)
    requires ctx_wf(c), a.len() == c.degree, b.len() == c.degree, 0 <= i < ctx_n(c), 0 <= k < c.degree, ensures cong(zev(c, nmul(a, b), i, k), zev(c, a, i, k) * zev(c, b, i, k), cq(c, i)), nmul(a, b).len() == c.degree,
{ lemma_nmul_eval(c.ntt_ops@[i], a, b, k); }
/// a polynomial in evaluation form that is z modulo every modulus takes the values of z
pub proof fn lemma_den_ev(p: Poly, z: Seq<int>, i: int, k: int)
    requires poly_wf(p), p.representation == Representation::Ntt, den_int(p, z), 0 <= i < ctx_n(*p.context), 0 <= k < p.context.degree, ensures pc(p, i, k) == zev(*p.context, z, i, k) % cq(*p.context, i),
{
    let c = pctx(p); let q = cq(c, i); let n = c.degree as nat; let m = modseq(z, q); let x = npt(c.ntt_ops@[i], k); lemma_ctx(c, i);
    assert(denotes(p, i, m)); assert(p.coefficients.rows@[i]@[k] as int == bev(ints(m), 0, n, x) % q);
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] ints(m)[0 + j], z[0 + j], q) by { lemma_mod_range(z[j], q); assert(m[j] as int == z[j] % q); }
    lemma_bev_cong(ints(m), z, 0, n, x, x, q);
}
pub proof fn lemma_nmul_bound(a: Seq<int>, b: Seq<int>, j: nat, k: int, A: int, B: int)
    requires j <= a.len() <= b.len(), 0 <= k < b.len(), bounded(a, A), bounded(b, B), A >= 0, B >= 0, ensures -(j * (A * B)) <= nmul_coef(a, b, j, k) <= j * (A * B), decreases j,
{
    if j > 0 {
        let i = (j - 1) as nat; lemma_nmul_bound(a, b, i, k, A, B); let x = a[i as int]; let y = nrot(b, i as int)[k];
        assert(-A <= a[i as int] <= A); assert(-B <= y <= B) by { if k >= i { assert(-B <= b[k - i] <= B); } else { assert(-B <= b[b.len() + k - i] <= B); } }
        lemma_prod_bound(x, y, A, B); assert(j * (A * B) == i * (A * B) + A * B) by(nonlinear_arith) requires j == i + 1;
    } else { assert(0 * (A * B) == 0); }
}
pub proof fn lemma_prod_bound(x: int, y: int, A: int, B: int) requires -A <= x <= A, -B <= y <= B, ensures -(A * B) <= x * y <= A * B,
{
    if x >= 0 { assert(x * y <= A * B) by(nonlinear_arith) requires 0 <= x <= A, -B <= y <= B; assert(-(A * B) <= x * y) by(nonlinear_arith) requires 0 <= x <= A, -B <= y <= B; }
    else { assert(x * y <= A * B) by(nonlinear_arith) requires -A <= x < 0, -B <= y <= B; assert(-(A * B) <= x * y) by(nonlinear_arith) requires -A <= x < 0, -B <= y <= B; }
}
// ------------------------------------------------------------------ key-switching keys
pub open spec fn ksk_wf(k: Ksk) -> bool {
    let c = *k.ksk_context;
    &&& k.ksk_context == k.ct_context && ctx_wf(c) && k.c0.len() == ctx_n(c) && k.c1.len() == ctx_n(c)
    &&& forall|j: int| 0 <= j < k.c0.len() ==> row_wf(#[trigger] k.c0@[j], k.ksk_context)
    &&& forall|j: int| 0 <= j < k.c1.len() ==> row_wf(#[trigger] k.c1@[j], k.ksk_context)
}
pub open spec fn row_wf(p: Poly, c: Arc<RqContext>) -> bool { poly_wf(p) && p.context == c && p.representation == Representation::Ntt }
/// c0 + c1 s = e + g from
pub open spec fn ksk_row(s: Poly, from: Poly, g: int, c0: Poly, c1: Poly, z: Seq<int>, b: int) -> bool {
    let c = *s.context;
    bounded(z, b) && z.len() == c.degree && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(s, i, k), zev(c, z, i, k) + g * pc(from, i, k), cq(c, i))
}
/// the key switches from `from` to s, with error polynomials zs of coefficients at most b
pub open spec fn ksk_enc(kk: Ksk, s: Poly, from: Poly, zs: Seq<Seq<int>>, b: int) -> bool {
    &&& ksk_wf(kk) && row_wf(s, kk.ksk_context) && row_wf(from, kk.ksk_context) && zs.len() == kk.c0.len()
    &&& forall|j: int| 0 <= j < zs.len() ==> ksk_row(s, from, kk.ct_context.rns.garner@[j].v() as int, kk.c0@[j], kk.c1@[j], #[trigger] zs[j], b)
}
/// sum over the digits of digit times key row, at evaluation point (i, k)
pub open spec fn dsum(c: RqContext, p: Poly, rows: Seq<Poly>, i: int, k: int, n: nat) -> int decreases n { if n == 0 { 0 } else { dsum(c, p, rows, i, k, (n - 1) as nat) + zev(c, ints(p.coefficients.rows@[n - 1]@), i, k) * pc(rows[n - 1], i, k) } }
/// error of switching p
pub open spec fn ks_err(p: Poly, zs: Seq<Seq<int>>, n: nat) -> Seq<int> decreases n { if n == 0 { zzero(p.context.degree as nat) } else { zadd(ks_err(p, zs, (n - 1) as nat), nmul(ints(p.coefficients.rows@[n - 1]@), zs[n - 1])) } }
pub open spec fn gsum(c: RqContext, p: Poly, i: int, k: int, n: nat) -> int decreases n { if n == 0 { 0 } else { gsum(c, p, i, k, (n - 1) as nat) + zev(c, ints(p.coefficients.rows@[n - 1]@), i, k) * c.rns.garner@[n - 1].v() } }
proof fn lemma_gsum(c: RqContext, p: Poly, i: int, k: int, n: nat)
    requires ctx_wf(c), poly_wf(p), *p.context == c, 0 <= i < ctx_n(c), n <= ctx_n(c), ensures cong(gsum(c, p, i, k, n), if i < n { zev(c, ints(p.coefficients.rows@[i]@), i, k) } else { 0 }, cq(c, i)), decreases n,
{
    let q = cq(c, i); lemma_ctx(c, i);
    if n > 0 {
        let j = n - 1; lemma_gsum(c, p, i, k, j as nat); lemma_garner(arcv(c.rns), j, i); let D = zev(c, ints(p.coefficients.rows@[j]@), i, k); let g = c.rns.garner@[j].v() as int; let G = gsum(c, p, i, k, j as nat);
        let d = if i == j { 1int } else { 0 }; lemma_small_mod(d as nat, q as nat); lemma_cong_mul(D, D, g, d, q);
        lemma_cong_add(G, if i < j { zev(c, ints(p.coefficients.rows@[i]@), i, k) } else { 0 }, D * g, D * d, q); assert(D * 0 == 0); assert(D * 1 == D);
    }
}
proof fn lemma_ks_upto(kk: Ksk, p: Poly, s: Poly, from: Poly, zs: Seq<Seq<int>>, b: int, i: int, k: int, n: nat)
    requires ksk_enc(kk, s, from, zs, b), poly_wf(p), p.context == kk.ct_context, 0 <= i < ctx_n(*kk.ksk_context), 0 <= k < kk.ksk_context.degree, n <= ctx_n(*kk.ksk_context), 
    ensures ({ let c = *kk.ksk_context; ks_err(p, zs, n).len() == c.degree && cong(dsum(c, p, kk.c0@, i, k, n) + dsum(c, p, kk.c1@, i, k, n) * pc(s, i, k), zev(c, ks_err(p, zs, n), i, k) + gsum(c, p, i, k, n) * pc(from, i, k), cq(c, i)) }),
    decreases n,
{
    let c = *kk.ksk_context; let q = cq(c, i); lemma_ctx(c, i); let S = pc(s, i, k); let F = pc(from, i, k);
    if n == 0 { lemma_zzero(c, i, k); assert(0 * S == 0); assert(0 * F == 0); }
    else {
        let j = n - 1; lemma_ks_upto(kk, p, s, from, zs, b, i, k, j as nat);
        let d = ints(p.coefficients.rows@[j]@); let D = zev(c, d, i, k); let C0 = pc(kk.c0@[j], i, k); let C1 = pc(kk.c1@[j], i, k); let g = c.rns.garner@[j].v() as int; let z = zs[j]; let Z = zev(c, z, i, k); let E0 = ks_err(p, zs, j as nat);
        assert(ksk_row(s, from, g, kk.c0@[j], kk.c1@[j], z, b));
        assert(cong(C0 + C1 * S, Z + g * F, q));
        lemma_cong_mul(D, D, C0 + C1 * S, Z + g * F, q);
        lemma_zmul(c, d, z, i, k); lemma_zadd(c, E0, nmul(d, z), i, k);
        let A0 = dsum(c, p, kk.c0@, i, k, j as nat); let A1 = dsum(c, p, kk.c1@, i, k, j as nat); let G = gsum(c, p, i, k, j as nat); let ZE = zev(c, E0, i, k); let ZN = zev(c, nmul(d, z), i, k); let ZT = zev(c, ks_err(p, zs, n), i, k);
        lemma_cong_add(A0 + A1 * S, ZE + G * F, D * (C0 + C1 * S), D * (Z + g * F), q);
        assert((A0 + D * C0) + (A1 + D * C1) * S == (A0 + A1 * S) + D * (C0 + C1 * S)) by(nonlinear_arith);
        assert(D * (Z + g * F) == D * Z + (D * g) * F) by(nonlinear_arith);
        assert((G + D * g) * F == G * F + (D * g) * F) by(nonlinear_arith);
        let R = (G + D * g) * F;
        lemma_cong_add(ZE, ZE, ZN, D * Z, q); // ZE + ZN ~ ZE + D Z
        assert(cong(ZT, ZE + D * Z, q)); lemma_cong_add(ZT, ZE + D * Z, R, R, q);
    }
}
pub proof fn lemma_ks_err_bound(p: Poly, zs: Seq<Seq<int>>, n: nat, b: int)
    requires poly_wf(p), n <= zs.len(), n <= ctx_n(*p.context), b >= 0, forall|j: int| 0 <= j < zs.len() ==> #[trigger] zs[j].len() == p.context.degree && bounded(zs[j], b),
    ensures ks_err(p, zs, n).len() == p.context.degree, bounded(ks_err(p, zs, n), n * (p.context.degree * (0x4000_0000_0000_0000 * b))), decreases n,
{
    let N = p.context.degree as int; let M = N * (0x4000_0000_0000_0000 * b);
    if n > 0 {
        let j = n - 1; lemma_ks_err_bound(p, zs, j as nat, b); let d = ints(p.coefficients.rows@[j]@); lemma_ctx(pctx(p), j); assert(zs[j].len() == N);
        assert(bounded(d, 0x4000_0000_0000_0000)) by { assert forall|k: int| 0 <= k < d.len() implies -0x4000_0000_0000_0000 <= #[trigger] d[k] <= 0x4000_0000_0000_0000 by { assert(p.coefficients.rows@[j]@[k] < p.context.moduli_64@[j]); } }
        let e = ks_err(p, zs, n); let e0 = ks_err(p, zs, j as nat);
        assert forall|k: int| 0 <= k < e.len() implies -(n * M) <= #[trigger] e[k] <= n * M by { lemma_nmul_bound(d, zs[j], d.len(), k, 0x4000_0000_0000_0000, b); assert(-(j * M) <= e0[k] <= j * M); assert(n * M == j * M + M) by(nonlinear_arith) requires j == n - 1; }
    } else { assert(0 * M == 0); }
}
/// what key_switch computes
pub open spec fn ks_out(kk: Ksk, p: Poly, r0: Poly, r1: Poly) -> bool {
    let c = *kk.ksk_context;
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] pc(r0, i, k) == dsum(c, p, kk.c0@, i, k, ctx_n(c) as nat) % cq(c, i)
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] pc(r1, i, k) == dsum(c, p, kk.c1@, i, k, ctx_n(c) as nat) % cq(c, i)
}
/// phase of the pair under s is p times `from` plus e
pub open spec fn ks_phase(p: Poly, s: Poly, from: Poly, r0: Poly, r1: Poly, e: Seq<int>) -> bool {
    let c = *s.context;
    e.len() == c.degree && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + zev(c, ints(p.coefficients.rows@[i]@), i, k) * pc(from, i, k), cq(c, i))
}
/// key switching adds a bounded error and nothing else
pub proof fn lemma_key_switch(kk: Ksk, p: Poly, s: Poly, from: Poly, zs: Seq<Seq<int>>, b: int, r0: Poly, r1: Poly)
    requires ksk_enc(kk, s, from, zs, b), b >= 0, poly_wf(p), p.context == kk.ct_context, ks_out(kk, p, r0, r1),
    ensures ({ let e = ks_err(p, zs, ctx_n(*kk.ksk_context) as nat); ks_phase(p, s, from, r0, r1, e) && bounded(e, ctx_n(*kk.ksk_context) * (kk.ksk_context.degree * (0x4000_0000_0000_0000 * b))) }),
{
    let c = *kk.ksk_context; let L = ctx_n(c) as nat; let e = ks_err(p, zs, L);
    assert forall|j: int| 0 <= j < zs.len() implies #[trigger] zs[j].len() == c.degree && bounded(zs[j], b) by { assert(ksk_row(s, from, kk.ct_context.rns.garner@[j].v() as int, kk.c0@[j], kk.c1@[j], zs[j], b)); }
    lemma_ks_err_bound(p, zs, L, b);
    assert forall|i: int, k: int| 0 <= i < L && 0 <= k < c.degree implies cong(#[trigger] pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + zev(c, ints(p.coefficients.rows@[i]@), i, k) * pc(from, i, k), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); let S = pc(s, i, k); let F = pc(from, i, k); let A0 = dsum(c, p, kk.c0@, i, k, L); let A1 = dsum(c, p, kk.c1@, i, k, L); let G = gsum(c, p, i, k, L); let D = zev(c, ints(p.coefficients.rows@[i]@), i, k);
        lemma_ks_upto(kk, p, s, from, zs, b, i, k, L); lemma_gsum(c, p, i, k, L);
        lemma_mod_twice(A0, q); lemma_mod_twice(A1, q); assert(pc(r0, i, k) == A0 % q); assert(pc(r1, i, k) == A1 % q);
        lemma_cong_mul(pc(r1, i, k), A1, S, S, q); lemma_cong_add(pc(r0, i, k), A0, pc(r1, i, k) * S, A1 * S, q);
        lemma_cong_mul(G, D, F, F, q); let Z = zev(c, e, i, k); lemma_cong_add(Z, Z, G * F, D * F, q);
    }
}
pub proof fn lemma_row_arith(e: int, z: int, cs: int, f: int, g: int, c0: int, q: int)
    requires q > 1, e == z % q, c0 == ((e - cs % q) % q + (f * g) % q) % q || c0 == ((e - (cs % q)) % q + (f * g) % q) % q, ensures cong(c0 + cs, z + g * f, q),
{
    let x = e - cs % q; let y = f * g; lemma_mod_twice(z, q); lemma_mod_twice(cs, q); lemma_mod_twice(x, q); lemma_mod_twice(y, q);
    lemma_cong_sub(e, z, cs % q, cs, q); lemma_cong_add(x % q, x, y % q, y, q); lemma_cong_add(x, z - cs, y, y, q);
    let w = x % q + y % q; lemma_mod_twice(w, q); lemma_cong_add(c0, w, cs, cs, q); lemma_cong_add(w, z - cs + y, cs, cs, q); assert(f * g == g * f) by(nonlinear_arith);
}
/// the digit polynomial takes the values of the row
pub proof fn lemma_digit(d: Poly, f: Poly, row: Seq<u64>, i: int, k: int)
    requires poly_wf(d), poly_wf(f), d.context == f.context, d.representation == Representation::PowerBasis, f.representation == Representation::Ntt, row.len() == d.context.degree, 0 <= i < ctx_n(*d.context), 0 <= k < d.context.degree,
      forall|i: int, k: int| 0 <= i < ctx_n(*d.context) && 0 <= k < d.context.degree ==> #[trigger] d.coefficients.rows@[i]@[k] == (if k < row.len() { row[k] as int % cq(*d.context, i) } else { 0 }),
      same_den(d, f),
    ensures pc(f, i, k) == zev(*d.context, ints(row), i, k) % cq(*d.context, i),
{
    assert forall|i: int, k: int| 0 <= i < ctx_n(*d.context) && 0 <= k < d.context.degree implies #[trigger] d.coefficients.rows@[i]@[k] == ints(row)[k] % cq(*d.context, i) by { assert(ints(row)[k] == row[k]); }
    lemma_den_red(d, f, ints(row)); lemma_den_ev(f, ints(row), i, k);
}
pub proof fn lemma_ks_step(a0: int, A: int, d: int, D: int, c: int, b: int, a1: int, q: int)
    requires q > 1, a0 == A % q, d == D % q, b == (d * c) % q, a1 == (a0 + b) % q, ensures a1 == (A + D * c) % q,
{ lemma_mod_twice(A, q); lemma_mod_twice(D, q); lemma_cong_mul(d, D, c, c, q); lemma_mod_twice(d * c, q); lemma_cong_add(a0, A, b, D * c, q); }
pub open spec fn kctx(k: Ksk) -> RqContext { *k.ksk_context }
pub open spec fn qctx(p: BfvParameters, l: int) -> RqContext { *p.q_ctxs@[l] }
pub open spec fn qarc(p: BfvParameters, l: int) -> Arc<RqContext> { p.q_ctxs@[l] }
