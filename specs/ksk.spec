== ksk::Ksk::new
refuses
requires
    bfv_wf(*sk.params), ct_level < sk.params.q_ctxs.len(), ksk_level == ct_level, poly_wf(*from), from.context == sk.params.q_ctxs@[ct_level as int], sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    ksk_wf(ret), ret.params == sk.params, ret.ksk_context == sk.params.q_ctxs@[ksk_level as int], from.representation == Representation::Ntt,
    exists|s: Poly, zs: Seq<Seq<int>>| is_sk(s, sk.coeffs@) && #[trigger] ksk_enc(ret, s, *from, zs, 2 * sk.params.variance),
entry
    proof { lemma_level0(arcv(sk.params), ct_level as int); }
    let ghost c = qctx(arcv(sk.params), ct_level as int); let ghost ca = qarc(arcv(sk.params), ct_level as int); let ghost cf = sk.coeffs@; let ghost v = sk.params.variance;
    let ghost mut zs: Seq<Seq<int>> = Seq::empty();
inv 0
    $out.len() == $i, forall|j: int| 0 <= j < $i ==> row_wf(#[trigger] $out@[j], ca),
let sk
    let ghost sk0 = sk_1;
after 0
    let ghost x = 0int;
before 1
    proof { lemma_sk(sk0, sk_1, cf); }
inv 1
    $n == ctx_n(c), c0s.len() == $i, c1s.len() == $n, zs.len() == $i, ctx_wf(c), row_wf(sk_1, ca), row_wf(*from, ca) || $i == 0, poly_wf(*from), from.context == ca, *ca == c, 1 <= v <= 16, c.degree <= 0x00ff_ffff_ffff_ffff, params.variance == v, ksk_ctx == ca, ct_ctx == ca,
    forall|j: int| 0 <= j < $n ==> row_wf(#[trigger] c1s@[j], ca), forall|j: int| 0 <= j < $i ==> row_wf(#[trigger] c0s@[j], ca),
    forall|j: int| 0 <= j < $i ==> ksk_row(sk_1, *from, c.rns.garner@[j].v() as int, c0s@[j], c1s@[j], #[trigger] zs[j], 2 * v),
let rng
    let ghost rng0 = rng;
let b
    let ghost e0 = b;
end 1
    proof {
      let r = rng0; lemma_small_cbd(e0, r, v as nat); let z = Seq::new(c.degree as nat, |k: int| cbd_sample(r, v as nat, k as nat)); zs = zs.push(z);
      let c0 = c0s@[$i as int]; let c1 = c1s@[$i as int]; let g = c.rns.garner@[$i as int].v() as int;
      assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] pc(c0, i, k) + pc(c1, i, k) * pc(sk_1, i, k), zev(c, z, i, k) + g * pc(*from, i, k), cq(c, i)) by {
        let q = cq(c, i); lemma_ctx(c, i); lemma_den_ev(e0, z, i, k); lemma_row_arith(pc(e0, i, k), zev(c, z, i, k), pc(c1, i, k) * pc(sk_1, i, k), pc(*from, i, k), g, pc(c0, i, k), q); }
      assert(ksk_row(sk_1, *from, g, c0, c1, z, 2 * v)); }
exit
    proof { assert(ksk_enc(ret, sk_1, *from, zs, 2 * v)); }

== ksk::Ksk::key_switch
refuses
requires
    ksk_wf(*this), poly_wf(*poly),
ensures
    poly.context == this.ct_context, poly.representation == Representation::PowerBasis, row_wf(ret.0, this.ksk_context), row_wf(ret.1, this.ksk_context), ks_out(*this, *poly, ret.0, ret.1),
before 0
    let ghost c = kctx(*this);
    proof { assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(c0, i, k) == 0int % cq(c, i) by { lemma_ctx(c, i); lemma_small_mod(0, cq(c, i) as nat); assert(c0.coefficients.rows@[i]@[k] == 0); }
      assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(c1, i, k) == 0int % cq(c, i) by { lemma_ctx(c, i); lemma_small_mod(0, cq(c, i) as nat); assert(c1.coefficients.rows@[i]@[k] == 0); } }
inv 0
    $n == ctx_n(c), ksk_wf(*this), c == *this.ksk_context, poly_wf(*poly), poly.context == this.ct_context, row_wf(c0, this.ksk_context), row_wf(c1, this.ksk_context), poly.representation == Representation::PowerBasis,
    forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] pc(c0, i, k) == dsum(c, *poly, this.c0@, i, k, $i as nat) % cq(c, i),
    forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] pc(c1, i, k) == dsum(c, *poly, this.c1@, i, k, $i as nat) % cq(c, i),
begin 0
    let ghost c00 = c0; let ghost c10 = c1;
let decomposed_poly_i
    let ghost d0 = decomposed_poly_i;
end 0
    proof {
      let j = $i as int; let row = poly.coefficients.rows@[j]@;
      assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(c0, i, k) == dsum(c, *poly, this.c0@, i, k, (j + 1) as nat) % cq(c, i) && pc(c1, i, k) == dsum(c, *poly, this.c1@, i, k, (j + 1) as nat) % cq(c, i) by {
        let q = cq(c, i); lemma_ctx(c, i); lemma_digit(d0, decomposed_poly_i, row, i, k); let D = zev(c, ints(row), i, k);
        lemma_ks_step(pc(c00, i, k), dsum(c, *poly, this.c0@, i, k, j as nat), pc(decomposed_poly_i, i, k), D, pc(this.c0@[j], i, k), pc(b, i, k), pc(c0, i, k), q);
        lemma_ks_step(pc(c10, i, k), dsum(c, *poly, this.c1@, i, k, j as nat), pc(decomposed_poly_i, i, k), D, pc(this.c1@[j], i, k), pc(a, i, k), pc(c1, i, k), q); } 
      assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] pc(c1, i, k) == dsum(c, *poly, this.c1@, i, k, (j + 1) as nat) % cq(c, i) by { assert(pc(c0, i, k) == dsum(c, *poly, this.c0@, i, k, (j + 1) as nat) % cq(c, i)); } }

== ksk::Ksk::new_with_pt
refuses
requires
    bfv_wf(*sk.params), ct_level < sk.params.q_ctxs.len(), ksk_level == ct_level, from.params == sk.params, from.level == ct_level, from.values.len() == sk.params.degree, sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    ksk_wf(ret), ret.params == sk.params, ret.ksk_context == sk.params.q_ctxs@[ksk_level as int],
    exists|s: Poly, m: Poly, zs: Seq<Seq<int>>| is_sk(s, sk.coeffs@) && #[trigger] ksk_enc(ret, s, m, zs, 2 * sk.params.variance) && ((forall|k: int| 0 <= k < from.values.len() ==> #[trigger] from.values@[k] < from.params.plaintext_modulus_u64) ==> exists|V: Seq<int>| scaled_msg(ret.ksk_context.rns.product.v() as int, from.params.plaintext_modulus_u64 as int, from.values@, V) && #[trigger] den_int(m, V)),

== ksk::Ksk::try_from_decomposed_rlwes
refuses
requires
    bfv_wf(**params), forall|j: int| 0 <= j < cts.len() ==> bct_wf(#[trigger] cts@[j]) && cts@[j].cts.len() == 2 && cts@[j].level == 0, cts.len() == params.ciphertext_moduli.len(),
ensures
    ksk_wf(ret), ret.ksk_context == params.q_ctxs@[0], ret.params == *params, forall|j: int| 0 <= j < cts.len() ==> #[trigger] ret.c0@[j] == cts@[j].cts@[0], forall|j: int| 0 <= j < cts.len() ==> #[trigger] ret.c1@[j] == cts@[j].cts@[1],
entry
    proof { lemma_level0(arcv(*params), 0); }
inv 0
    $n == cts.len(), $out.len() == $i, forall|j: int| 0 <= j < cts.len() ==> bct_wf(#[trigger] cts@[j]) && cts@[j].cts.len() == 2 && cts@[j].level == 0, forall|j: int| 0 <= j < $i ==> #[trigger] cts@[j].params == *params, forall|j: int| 0 <= j < $i ==> #[trigger] $out@[j] == cts@[j].cts@[0],
inv 1
    $n == cts.len(), $out.len() == $i, c0.len() == cts.len(), forall|j: int| 0 <= j < cts.len() ==> bct_wf(#[trigger] cts@[j]) && cts@[j].cts.len() == 2 && cts@[j].level == 0, forall|j: int| 0 <= j < cts.len() ==> #[trigger] cts@[j].params == *params, forall|j: int| 0 <= j < cts.len() ==> #[trigger] c0@[j] == cts@[j].cts@[0],
    forall|j: int| 0 <= j < $i ==> #[trigger] $out@[j] == cts@[j].cts@[1],
exit
    proof { assert forall|j: int| 0 <= j < cts.len() implies row_wf(#[trigger] ret.c0@[j], ret.ksk_context) by { assert(bct_wf(cts@[j])); assert(poly_wf(cts@[j].cts@[0])); }
      assert forall|j: int| 0 <= j < cts.len() implies row_wf(#[trigger] ret.c1@[j], ret.ksk_context) by { assert(bct_wf(cts@[j])); assert(poly_wf(cts@[j].cts@[1])); } }
