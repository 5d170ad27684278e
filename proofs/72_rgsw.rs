// RGSW: rows for m s and for m; the external product multiplies the phase by m.
pub open spec fn rgsw_wf(r: RgswCt) -> bool { ksk_wf(r.ksk0) && ksk_wf(r.ksk1) && r.ksk0.ct_context == r.ksk1.ct_context }
pub open spec fn rgsw_enc(r: RgswCt, s: Poly, sm: Poly, m: Poly, cf: Seq<i64>, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>, b: int) -> bool {
    &&& rgsw_wf(r) && is_sk(s, cf) && ksk_enc(r.ksk0, s, sm, z0, b) && ksk_enc(r.ksk1, s, m, z1, b)
    &&& forall|i: int, k: int| 0 <= i < ctx_n(*s.context) && 0 <= k < s.context.degree ==> #[trigger] pc(sm, i, k) == (pc(s, i, k) * pc(m, i, k)) % cq(*s.context, i)
}
/// the coefficient polynomial d has digits that take the values of f
pub open spec fn digits_of(d: Poly, f: Poly) -> bool { poly_wf(d) && d.context == f.context && d.representation == Representation::PowerBasis && forall|i: int, k: int| 0 <= i < ctx_n(*f.context) && 0 <= k < f.context.degree ==> cong(#[trigger] zev(*f.context, ints(d.coefficients.rows@[i]@), i, k), pc(f, i, k), cq(*f.context, i)) }
pub proof fn lemma_digits_of(d: Poly, f: Poly) requires poly_wf(d), poly_wf(f), d.context == f.context, d.representation == Representation::PowerBasis, f.representation == Representation::Ntt, same_den(d, f), ensures digits_of(d, f),
{ assert forall|i: int, k: int| 0 <= i < ctx_n(*f.context) && 0 <= k < f.context.degree implies cong(#[trigger] zev(*f.context, ints(d.coefficients.rows@[i]@), i, k), pc(f, i, k), cq(*f.context, i)) by { lemma_digit_val(d, f, i, k); } }
pub open spec fn psum(a: Poly, b: Poly, r: Poly) -> bool { forall|i: int, k: int| 0 <= i < ctx_n(*a.context) && 0 <= k < a.context.degree ==> #[trigger] pc(r, i, k) == (pc(a, i, k) + pc(b, i, k)) % cq(*a.context, i) }
/// what the external product computes
pub open spec fn ext_out(r: RgswCt, f0: Poly, f1: Poly, d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly, r0: Poly, r1: Poly) -> bool {
    &&& digits_of(d0, f0) && digits_of(d1, f1) && f0.context == r.ksk0.ct_context && f1.context == r.ksk0.ct_context
    &&& row_wf(a0, f0.context) && row_wf(a1, f0.context) && row_wf(b0, f0.context) && row_wf(b1, f0.context)
    &&& ks_out(r.ksk0, d1, a0, a1) && ks_out(r.ksk1, d0, b0, b1) && psum(b0, a0, r0) && psum(b1, a1, r1)
}
pub proof fn lemma_ext_product(r: RgswCt, s: Poly, sm: Poly, m: Poly, cf: Seq<i64>, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>, b: int, f0: Poly, f1: Poly, d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly, r0: Poly, r1: Poly)
    requires rgsw_enc(r, s, sm, m, cf, z0, z1, b), b >= 0, ext_out(r, f0, f1, d0, d1, a0, a1, b0, b1, r0, r1),
    ensures ({ let c = *s.context; let L = ctx_n(c); exists|e: Seq<int>| e.len() == c.degree && #[trigger] bounded(e, 2 * (L * (c.degree * (0x4000_0000_0000_0000 * b)))) && 
        forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> cong(#[trigger] pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + pc(m, i, k) * (pc(f0, i, k) + pc(f1, i, k) * pc(s, i, k)), cq(c, i)) }),
{
    let c = pctx(s); let L = ctx_n(c) as nat; let ea = ks_err(d1, z0, L); let eb = ks_err(d0, z1, L); let e = zadd(ea, eb);
    lemma_key_switch(r.ksk0, d1, s, sm, z0, b, a0, a1); lemma_key_switch(r.ksk1, d0, s, m, z1, b, b0, b1);
    let B = L * (c.degree * (0x4000_0000_0000_0000 * b));
    assert(bounded(e, 2 * B)) by { assert forall|k: int| 0 <= k < e.len() implies -(2 * B) <= #[trigger] e[k] <= 2 * B by { assert(-B <= ea[k] <= B); assert(-B <= eb[k] <= B); } }
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] pc(r0, i, k) + pc(r1, i, k) * pc(s, i, k), zev(c, e, i, k) + pc(m, i, k) * (pc(f0, i, k) + pc(f1, i, k) * pc(s, i, k)), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); let S = pc(s, i, k); let M = pc(m, i, k); let SM = pc(sm, i, k); let F0 = pc(f0, i, k); let F1 = pc(f1, i, k);
        let D0 = zev(c, ints(d0.coefficients.rows@[i]@), i, k); let D1 = zev(c, ints(d1.coefficients.rows@[i]@), i, k); let A0 = pc(a0, i, k); let A1 = pc(a1, i, k); let B0 = pc(b0, i, k); let B1 = pc(b1, i, k);
        assert(cong(D0, F0, q)); assert(cong(D1, F1, q)); let EA = zev(c, ea, i, k); let EB = zev(c, eb, i, k);
        assert(cong(A0 + A1 * S, EA + D1 * SM, q)); assert(cong(B0 + B1 * S, EB + D0 * M, q));
        lemma_mod_twice(S * M, q); lemma_cong_mul(D1, F1, SM, S * M, q); lemma_cong_mul(D0, F0, M, M, q);
        lemma_cong_add(EA, EA, D1 * SM, F1 * (S * M), q); lemma_cong_add(EB, EB, D0 * M, F0 * M, q);
        lemma_cong_add(A0 + A1 * S, EA + F1 * (S * M), B0 + B1 * S, EB + F0 * M, q);
        lemma_mod_twice(B0 + A0, q); lemma_mod_twice(B1 + A1, q); lemma_cong_mul(pc(r1, i, k), B1 + A1, S, S, q); lemma_cong_add(pc(r0, i, k), B0 + A0, pc(r1, i, k) * S, (B1 + A1) * S, q);
        assert((B0 + A0) + (B1 + A1) * S == (A0 + A1 * S) + (B0 + B1 * S)) by(nonlinear_arith);
        assert(M * (F0 + F1 * S) == F1 * (S * M) + F0 * M) by(nonlinear_arith);
        lemma_zadd(c, ea, eb, i, k); let X = M * (F0 + F1 * S); lemma_cong_add(EA + EB, zev(c, e, i, k), X, X, q);
    }
}
/// the evaluation form of the key is unique, so a key-switching key for one form is one for the other
pub proof fn lemma_two_keys(kk: Ksk, s: Poly, s1: Poly, cf: Seq<i64>, from: Poly, zs: Seq<Seq<int>>, b: int)
    requires is_sk(s, cf), is_sk(s1, cf), s.context == s1.context, ksk_enc(kk, s1, from, zs, b), ensures ksk_enc(kk, s, from, zs, b),
{
    let c = pctx(s);
    assert forall|j: int| 0 <= j < zs.len() implies ksk_row(s, from, kk.ct_context.rns.garner@[j].v() as int, kk.c0@[j], kk.c1@[j], #[trigger] zs[j], b) by {
        let g = kk.ct_context.rns.garner@[j].v() as int; let c0 = kk.c0@[j]; let c1 = kk.c1@[j]; let z = zs[j]; assert(ksk_row(s1, from, g, c0, c1, z, b));
        assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(s, i, k), zev(c, z, i, k) + g * pc(from, i, k), cq(c, i)) by { lemma_same_sk(s, s1, cf, i); assert(pc(s, i, k) == pc(s1, i, k)); assert(cong(pc(c0, i, k) + pc(c1, i, k) * pc(s1, i, k), zev(c, z, i, k) + g * pc(from, i, k), cq(c, i))); } }
}
