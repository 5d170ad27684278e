== rgsw::RgswCt::encrypt_poly
refuses
requires
    bfv_wf(*sk.params), poly_wf(*m), sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    m.representation == Representation::Ntt, rgsw_wf(ret), ret.ksk0.ct_context == m.context,
    exists|s: Poly, sm: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] rgsw_enc(ret, s, sm, *m, sk.coeffs@, z0, z1, 2 * sk.params.variance),
let level
    proof { lemma_level0(arcv(sk.params), level as int); }
let sk_poly
    let ghost sk0 = sk_poly;
let s_m
    proof { lemma_sk(sk0, sk_poly, sk.coeffs@); }
exit
    proof { let cf = sk.coeffs@; let v = 2 * sk.params.variance;
      let (s, z0) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, cf) && #[trigger] ksk_enc(ksk0, s, s_m, zs, v);
      let (s1, z1) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, cf) && #[trigger] ksk_enc(ksk1, s, *m, zs, v);
      lemma_two_keys(ksk1, s, s1, cf, *m, z1, v as int);
      assert forall|i: int, k: int| 0 <= i < ctx_n(*s.context) && 0 <= k < s.context.degree implies #[trigger] pc(s_m, i, k) == (pc(s, i, k) * pc(*m, i, k)) % cq(*s.context, i) by { lemma_same_sk(s, sk_poly, cf, i); assert(pc(s, i, k) == pc(sk_poly, i, k)); }
      assert(rgsw_enc(ret, s, s_m, *m, cf, z0, z1, v as int)); }

== rgsw::RgswCt::encrypt
refuses
requires
    bfv_wf(*sk.params), m.level < m.params.q_ctxs.len(), m.values.len() == m.params.degree, sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    m.params == sk.params, rgsw_wf(ret), ret.ksk0.ct_context == m.params.q_ctxs@[m.level as int],
    exists|s: Poly, sm: Poly, mp: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] rgsw_enc(ret, s, sm, mp, sk.coeffs@, z0, z1, 2 * sk.params.variance) && den_int(mp, ints(m.values@)),
entry
    proof { if m.params == sk.params { lemma_level0(arcv(sk.params), m.level as int); } }
let m_poly
    let ghost m0 = m_poly;
let s_poly
    let ghost sk0 = s_poly;
let sm_poly
    proof { lemma_sk(sk0, s_poly, sk.coeffs@); let z = ints(m.values@);
      assert forall|i: int, k: int| 0 <= i < ctx_n(*m0.context) && 0 <= k < m0.context.degree implies #[trigger] m0.coefficients.rows@[i]@[k] == z[k] % cq(*m0.context, i) by { assert(z[k] == m.values@[k]); }
      lemma_den_red(m0, m_poly, z); }
exit
    proof { let cf = sk.coeffs@; let v = 2 * sk.params.variance;
      let (s, z0) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, cf) && #[trigger] ksk_enc(ret.ksk0, s, sm_poly, zs, v);
      let (s1, z1) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, cf) && #[trigger] ksk_enc(ret.ksk1, s, m_poly, zs, v);
      lemma_two_keys(ret.ksk1, s, s1, cf, m_poly, z1, v as int);
      assert forall|i: int, k: int| 0 <= i < ctx_n(*s.context) && 0 <= k < s.context.degree implies #[trigger] pc(sm_poly, i, k) == (pc(s, i, k) * pc(m_poly, i, k)) % cq(*s.context, i) by { lemma_same_sk(s, s_poly, cf, i); assert(pc(s, i, k) == pc(s_poly, i, k)); }
      assert(rgsw_enc(ret, s, sm_poly, m_poly, cf, z0, z1, v as int)); }

== rgsw::RgswCt::external_product
refuses
requires
    rgsw_wf(*rgsw), bct_wf(*bfv), bfv.cts.len() >= 2,
ensures
    rgsw.ksk0.ct_context == bfv.cts@[0].context, row_wf(ret.0, rgsw.ksk0.ct_context), row_wf(ret.1, rgsw.ksk0.ct_context),
    exists|d0: Poly, d1: Poly, a0: Poly, a1: Poly, b0: Poly, b1: Poly| #[trigger] ext_out(*rgsw, bfv.cts@[0], bfv.cts@[1], d0, d1, a0, a1, b0, b1, ret.0, ret.1),
let c1_0
    let ghost a0 = c1_0;
let c1_1
    let ghost a1 = c1_1;
let c0_0
    let ghost b0 = c0_0;
let c0_1
    let ghost b1 = c0_1;
exit
    proof { lemma_digits_of(c0, bfv.cts@[0]); lemma_digits_of(c1, bfv.cts@[1]); assert(ext_out(*rgsw, bfv.cts@[0], bfv.cts@[1], c0, c1, a0, a1, b0, b1, ret.0, ret.1)); }

== rgsw::RgswCt::try_from_ksks
ensures
    ret.ksk0 == *ksk0, ret.ksk1 == *ksk1,
