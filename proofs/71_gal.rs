// Galois and relinearisation keys.
pub open spec fn gal_wf(g: GaliosKey) -> bool {
    &&& ksk_wf(g.gk) && bfv_wf(*g.gk.params) && g.galios_level < g.gk.params.q_ctxs.len() && g.gk.ct_context == g.gk.params.q_ctxs@[g.galios_level as int]
    &&& subst_wf(g.substitution, *g.gk.ct_context) && g.gk.ct_context.degree <= 0x4000_0000
}
/// g is a key-switching key from s(X^e) to s, where s has the coefficients cf
pub open spec fn gal_enc(g: GaliosKey, s: Poly, ss: Poly, cf: Seq<i64>, zs: Seq<Seq<int>>, b: int) -> bool {
    &&& gal_wf(g) && is_sk(s, cf) && cf.len() == g.gk.ct_context.degree && ksk_enc(g.gk, s, ss, zs, b)
    &&& den_int(ss, nsubst(ints_i(cf), g.substitution.exponent as int))
}
/// what applying the key computes: the substituted second component (with digits d) switched, plus the substituted first
pub open spec fn gal_out(g: GaliosKey, ct: BfvCipherText, r: BfvCipherText, d: Poly, r0: Poly) -> bool {
    let c = *g.gk.ct_context; let e = g.substitution.exponent as int;
    &&& poly_wf(d) && d.context == g.gk.ct_context && d.representation == Representation::PowerBasis && row_wf(r0, g.gk.ct_context)
    &&& ks_out(g.gk, d, r0, r.cts@[1])
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] zev(c, ints(d.coefficients.rows@[i]@), i, k), bc(ct, 1, i, sub_src(c, e, k)), cq(c, i))
    &&& forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(r, 0, i, k) == (pc(r0, i, k) + bc(ct, 0, i, sub_src(c, e, k))) % cq(c, i)
}
/// substituting commutes with reducing modulo q
pub proof fn lemma_sub_mod(a: Seq<u64>, z: Seq<int>, e: int, k: nat, j: nat, q: int)
    requires q > 0, e % 2 == 1, e > 0, a.len() == z.len() == pow2(k), j <= pow2(k), forall|m: int| 0 <= m < a.len() ==> cong(a[m] as int, #[trigger] z[m], q),
    ensures forall|m: int| 0 <= m < pow2(k) ==> cong(#[trigger] sub_st(ints(a), e, pow2(k) as int, j)[m], sub_st(z, e, pow2(k) as int, j)[m], q), decreases j,
{
    let n = pow2(k) as int; lemma_pow2_pos(k);
    lemma_sub_len(ints(a), e, n, j); lemma_sub_len(z, e, n, j);
    if j > 0 { 
        let h = (j - 1) as nat; lemma_sub_mod(a, z, e, k, h, q); lemma_sub_len(ints(a), e, n, h); lemma_sub_len(z, e, n, h); lemma_mod_range(h * e, n);
        let x = a[h as int] as int; let y = z[h as int]; assert(cong(x, y, q)); lemma_cong_mul(-1, -1, x, y, q); assert(-1 * x == -x && -1 * y == -y);
        assert(ints(a)[h as int] == x);
    }
}
pub proof fn lemma_sub_den_int(p: Poly, r: Poly, z: Seq<int>, e: int)
    requires poly_wf(p), r.context == p.context, e % 2 == 1, e > 0, den_int(p, z), forall|i: int, a: Seq<u64>| 0 <= i < ctx_n(*p.context) && #[trigger] denotes(p, i, a) ==> denotes(r, i, subst_row(a, e, cq(*p.context, i))),
    ensures den_int(r, nsubst(z, e)),
{
    let c = pctx(p); let n = c.degree as int; lemma_ctx(c, 0); lemma_clog(c, 0); let L = clog(c); lemma_sub_len(z, e, n, n as nat);
    assert forall|i: int| 0 <= i < ctx_n(c) implies #[trigger] denotes(r, i, modseq(nsubst(z, e), cq(c, i))) by {
        let q = cq(c, i); lemma_ctx(c, i); let a = modseq(z, q); assert(denotes(p, i, a)); assert(denotes(r, i, subst_row(a, e, q)));
        assert forall|m: int| 0 <= m < a.len() implies cong(a[m] as int, #[trigger] z[m], q) by { lemma_mod_range(z[m], q); lemma_mod_twice(z[m], q); assert(a[m] as int == z[m] % q); }
        lemma_sub_mod(a, z, e, L, n as nat, q); lemma_sub_len(ints(a), e, n, n as nat);
        assert forall|m: int| 0 <= m < n implies #[trigger] subst_row(a, e, q)[m] == modseq(nsubst(z, e), q)[m] by { assert(cong(sub_st(ints(a), e, n, n as nat)[m], sub_st(z, e, n, n as nat)[m], q)); }
        assert(subst_row(a, e, q) =~= modseq(nsubst(z, e), q)); }
}
/// the integer polynomial substituted takes at every point the value of the source slot
pub proof fn lemma_zsub(c: RqContext, z: Seq<int>, e: int, i: int, t: int)
    requires ctx_wf(c), 0 <= i < ctx_n(c), e % 2 == 1, 0 < e, 0 <= t < c.degree, z.len() == c.degree,
    ensures cong(zev(c, nsubst(z, e), i, t), zev(c, z, i, sub_src(c, e, t)), cq(c, i)), 0 <= sub_src(c, e, t) < c.degree,
{
    let q = cq(c, i); let n = c.degree as nat; lemma_ctx(c, i); lemma_clog(c, i); let o = c.ntt_ops@[i]; let L = clog(c);
    let u = sub_src(c, e, t); lemma_sub_point(c, i, e, t); let x = npt(o, t); lemma_pt_neg(o, t);
    lemma_sub_eval(z, e, L, n, x, q); lemma_sub_len(z, e, n as int, n);
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] z[0 + k], z[0 + k], q) by { }
    lemma_bev_cong(z, z, 0, n, npt(o, u), pow(x, e as nat), q);
}
/// phase of a two-component ciphertext at an evaluation point
pub open spec fn ph2(c: BfvCipherText, s: Poly, i: int, k: int) -> int { bc(c, 0, i, k) + bc(c, 1, i, k) * pc(s, i, k) }
/// m is, modulo every modulus, the phase
pub open spec fn is_phase(c: BfvCipherText, s: Poly, m: Seq<int>) -> bool { m.len() == bctx(c).degree && forall|i: int, k: int| 0 <= i < ctx_n(bctx(c)) && 0 <= k < bctx(c).degree ==> cong(#[trigger] ph2(c, s, i, k), zev(bctx(c), m, i, k), cq(bctx(c), i)) }
/// the digits of d take the values d denotes
pub proof fn lemma_digit_val(d: Poly, f: Poly, i: int, k: int)
    requires poly_wf(d), poly_wf(f), d.context == f.context, d.representation == Representation::PowerBasis, f.representation == Representation::Ntt, same_den(d, f), 0 <= i < ctx_n(*d.context), 0 <= k < d.context.degree,
    ensures cong(zev(*d.context, ints(d.coefficients.rows@[i]@), i, k), pc(f, i, k), cq(*d.context, i)),
{
    let a = d.coefficients.rows@[i]@; let c = pctx(d); lemma_ctx(c, i); assert(denotes(d, i, a)) by { assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] < d.context.moduli_64@[i] by { } } assert(denotes(f, i, a));
    lemma_mod_twice(zev(c, ints(a), i, k), cq(c, i));
}
/// applying a Galois key substitutes in the phase and adds a bounded error
pub proof fn lemma_galois(g: GaliosKey, ct: BfvCipherText, r: BfvCipherText, d: Poly, r0: Poly, s: Poly, ss: Poly, cf: Seq<i64>, zs: Seq<Seq<int>>, b: int, m: Seq<int>)
    requires gal_enc(g, s, ss, cf, zs, b), b >= 0, bct_wf(ct), bct_wf(r), ct.cts.len() == 2, same_shape(r, ct), ct.params == g.gk.params, ct.level == g.galios_level, gal_out(g, ct, r, d, r0), is_phase(ct, s, m),
    ensures exists|err: Seq<int>| bounded(err, ctx_n(bctx(ct)) * (bctx(ct).degree * (0x4000_0000_0000_0000 * b))) && #[trigger] is_phase(r, s, zadd(nsubst(m, g.substitution.exponent as int), err)) && err.len() == bctx(ct).degree,
{
    let c = bctx(ct); let e = g.substitution.exponent as int; let n = c.degree as nat; assert(e > 0);
    lemma_key_switch(g.gk, d, s, ss, zs, b, r0, r.cts@[1]); let err = ks_err(d, zs, ctx_n(c) as nat); let sm = nsubst(m, e); lemma_sub_len(m, e, n as int, n);
    let c1 = ct.cts@[1];
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] ph2(r, s, i, k), zev(c, zadd(sm, err), i, k), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); lemma_zsub(c, m, e, i, k); let u = sub_src(c, e, k);
        let D = zev(c, ints(d.coefficients.rows@[i]@), i, k); let C1 = pc(c1, i, u);
        // values of the substituted secret
        let sz = ints_i(cf); lemma_den_ev(s, sz, i, u); lemma_den_ev(ss, nsubst(sz, e), i, k); lemma_zsub(c, sz, e, i, k); let F = pc(ss, i, k); let S = pc(s, i, u); 
        lemma_mod_twice(zev(c, sz, i, u), q); lemma_mod_twice(zev(c, nsubst(sz, e), i, k), q); assert(cong(F, S, q));
        lemma_cong_mul(D, C1, F, S, q);
        let R0 = pc(r0, i, k); let T0 = bc(ct, 0, i, u); let R1S = bc(r, 1, i, k) * pc(s, i, k); let E = zev(c, err, i, k);
        assert(cong(R0 + R1S, E + D * F, q));
        lemma_cong_add(R0 + R1S, E + D * F, T0, T0, q); lemma_mod_twice(R0 + T0, q); lemma_cong_add(bc(r, 0, i, k), R0 + T0, R1S, R1S, q);
        lemma_cong_add(E + T0, E + T0, D * F, C1 * S, q);
        assert(cong(ph2(ct, s, i, u), zev(c, m, i, u), q)); let M = zev(c, sm, i, k);
        lemma_cong_add(E, E, T0 + C1 * S, M, q); lemma_zadd(c, sm, err, i, k);
    }
    assert(zadd(sm, err).len() == c.degree); assert(bctx(r) == c); assert(is_phase(r, s, zadd(sm, err)));
}
// ------------------------------------------------------------------ relinearisation
pub open spec fn relin_wf(k: RelinearizationKey, level: int) -> bool { ksk_wf(k.ksk) && bfv_wf(*k.params) && 0 <= level < k.params.q_ctxs.len() && k.ksk.ct_context == k.params.q_ctxs@[level] }
/// the key switches from s^2 to s
pub open spec fn relin_enc(k: RelinearizationKey, s: Poly, s2: Poly, cf: Seq<i64>, zs: Seq<Seq<int>>, b: int) -> bool {
    is_sk(s, cf) && ksk_enc(k.ksk, s, s2, zs, b) && forall|i: int, j: int| 0 <= i < ctx_n(*s.context) && 0 <= j < s.context.degree ==> #[trigger] pc(s2, i, j) == (pc(s, i, j) * pc(s, i, j)) % cq(*s.context, i)
}
/// what relinearising a polynomial computes: switching its coefficient form
pub open spec fn relin_out(k: RelinearizationKey, p: Poly, r0: Poly, r1: Poly) -> bool {
    exists|d: Poly| poly_wf(d) && d.context == p.context && d.representation == Representation::PowerBasis && same_den(d, p) && #[trigger] ks_out(k.ksk, d, r0, r1)
}
/// (c0 + r0, c1 + r1) has the phase of (c0, c1, p) up to a bounded error
pub proof fn lemma_relin(k: RelinearizationKey, s: Poly, s2: Poly, cf: Seq<i64>, zs: Seq<Seq<int>>, b: int, p: Poly, r0: Poly, r1: Poly)
    requires relin_enc(k, s, s2, cf, zs, b), b >= 0, row_wf(p, k.ksk.ct_context), relin_out(k, p, r0, r1),
    ensures ({ let c = *p.context; exists|err: Seq<int>| #[trigger] bounded(err, ctx_n(c) * (c.degree * (0x4000_0000_0000_0000 * b))) && err.len() == c.degree && forall|i: int, j: int| 0 <= i < ctx_n(c) && 0 <= j < c.degree ==> cong(#[trigger] pc(r0, i, j) + pc(r1, i, j) * pc(s, i, j), zev(c, err, i, j) + pc(p, i, j) * pow(pc(s, i, j), 2), cq(c, i)) }),
{
    let c = pctx(p); let d = choose|d: Poly| poly_wf(d) && d.context == p.context && d.representation == Representation::PowerBasis && same_den(d, p) && #[trigger] ks_out(k.ksk, d, r0, r1);
    lemma_key_switch(k.ksk, d, s, s2, zs, b, r0, r1); let err = ks_err(d, zs, ctx_n(c) as nat);
    assert forall|i: int, j: int| 0 <= i < ctx_n(c) && 0 <= j < c.degree implies cong(#[trigger] pc(r0, i, j) + pc(r1, i, j) * pc(s, i, j), zev(c, err, i, j) + pc(p, i, j) * pow(pc(s, i, j), 2), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); lemma_digit_val(d, p, i, j); let D = zev(c, ints(d.coefficients.rows@[i]@), i, j); let S = pc(s, i, j); let F = pc(s2, i, j); lemma_mod_twice(S * S, q); lemma_square_is_pow2(S);
        lemma_cong_mul(D, pc(p, i, j), F, S * S, q); let E = zev(c, err, i, j); lemma_cong_add(E, E, D * F, pc(p, i, j) * (S * S), q);
    }
    assert(bounded(err, ctx_n(c) * (c.degree * (0x4000_0000_0000_0000 * b))));
}
