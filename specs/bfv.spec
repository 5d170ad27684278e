== bfv::BfvCipherText::add(BfvCipherText)
refuses
requires
    bct_wf(*this), bct_wf(*rhs),
ensures
    this.params == rhs.params, this.level == rhs.level, this.cts.len() == rhs.cts.len(), bct_wf(ret), same_shape(ret, *this),
    forall|j: int, i: int, k: int| 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] bc(ret, j, i, k) == (bc(*this, j, i, k) + bc(*rhs, j, i, k)) % cq(bctx(*this), i),
inv 0
    $n == this.cts.len(), $n == rhs.cts.len(), bct_wf(*this), bct_wf(*rhs), this.params == rhs.params, this.level == rhs.level, $out.len() == $i,
    forall|j: int| 0 <= j < $i ==> poly_wf(#[trigger] $out@[j]) && $out@[j].context == this.params.q_ctxs@[this.level as int] && $out@[j].representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] pc($out@[j], i, k) == (bc(*this, j, i, k) + bc(*rhs, j, i, k)) % cq(bctx(*this), i),

== bfv::BfvCipherText::sub(BfvCipherText)
refuses
requires
    bct_wf(*this), bct_wf(*rhs),
ensures
    this.params == rhs.params, this.level == rhs.level, this.cts.len() == rhs.cts.len(), bct_wf(ret), same_shape(ret, *this),
    forall|j: int, i: int, k: int| 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] bc(ret, j, i, k) == (bc(*this, j, i, k) - bc(*rhs, j, i, k)) % cq(bctx(*this), i),
inv 0
    $n == this.cts.len(), $n == rhs.cts.len(), bct_wf(*this), bct_wf(*rhs), this.params == rhs.params, this.level == rhs.level, $out.len() == $i,
    forall|j: int| 0 <= j < $i ==> poly_wf(#[trigger] $out@[j]) && $out@[j].context == this.params.q_ctxs@[this.level as int] && $out@[j].representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] pc($out@[j], i, k) == (bc(*this, j, i, k) - bc(*rhs, j, i, k)) % cq(bctx(*this), i),

== bfv::BfvCipherText::add(Poly)
refuses
requires
    bct_wf(*this), poly_wf(*rhs),
ensures
    rhs.context == this.cts@[0].context, bct_wf(ret), same_shape(ret, *this), forall|j: int| 1 <= j < this.cts.len() ==> #[trigger] ret.cts@[j] == this.cts@[j],
    rhs.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] bc(ret, 0, i, k) == (bc(*this, 0, i, k) + pc(*rhs, i, k)) % cq(bctx(*this), i),

== bfv::BfvCipherText::mul(Poly)
refuses
requires
    bct_wf(*this), poly_wf(*rhs),
ensures
    bct_wf(ret), same_shape(ret, *this), rhs.context == this.cts@[0].context, rhs.representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] bc(ret, j, i, k) == (bc(*this, j, i, k) * pc(*rhs, i, k)) % cq(bctx(*this), i),
inv 0
    $n == this.cts.len(), bct_wf(*this), $out.len() == $i, poly_wf(*rhs), rhs.context == this.cts@[0].context, rhs.representation == Representation::Ntt,
    forall|j: int| 0 <= j < $i ==> poly_wf(#[trigger] $out@[j]) && $out@[j].context == this.params.q_ctxs@[this.level as int] && $out@[j].representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] pc($out@[j], i, k) == (bc(*this, j, i, k) * pc(*rhs, i, k)) % cq(bctx(*this), i),

== bfv::BfvCipherText::mul(BigU)
requires
    bct_wf(*this),
ensures
    bct_wf(ret), same_shape(ret, *this),
    forall|j: int, i: int, k: int| 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] bc(ret, j, i, k) == (bc(*this, j, i, k) * rhs.v()) % cq(bctx(*this), i),
inv 0
    $n == this.cts.len(), bct_wf(*this), $out.len() == $i,
    forall|j: int| 0 <= j < $i ==> poly_wf(#[trigger] $out@[j]) && $out@[j].context == this.params.q_ctxs@[this.level as int] && $out@[j].representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] pc($out@[j], i, k) == (bc(*this, j, i, k) * rhs.v()) % cq(bctx(*this), i),

== bfv::BfvCipherText::mul(Plaintext)
refuses
requires
    bct_wf(*this), rhs.values.len() == bctx(*this).degree,
ensures
    this.level == rhs.level, bct_wf(ret), same_shape(ret, *this),
    forall|j: int, i: int, s: Seq<u64>| #![trigger denotes(this.cts@[j], i, s)] 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && denotes(this.cts@[j], i, s) ==> denotes(ret.cts@[j], i, rmul(s, red_seq(rhs.values@, cq(bctx(*this), i)), cq(bctx(*this), i))),
let pt_poly
    let ghost pt0 = pt_poly;
inv 0
    $n == this.cts.len(), bct_wf(*this), $out.len() == $i, poly_wf(pt_poly), pt_poly.context == this.cts@[0].context, pt_poly.representation == Representation::Ntt,
    forall|j: int| 0 <= j < $i ==> poly_wf(#[trigger] $out@[j]) && $out@[j].context == this.params.q_ctxs@[this.level as int] && $out@[j].representation == Representation::Ntt,
    forall|j: int, i: int, k: int| 0 <= j < $i && 0 <= i < ctx_n(bctx(*this)) && 0 <= k < bctx(*this).degree ==> #[trigger] pc($out@[j], i, k) == (bc(*this, j, i, k) * pc(pt_poly, i, k)) % cq(bctx(*this), i),
exit
    proof {
      lemma_red_den(pt0, rhs.values@);
      assert forall|j: int, i: int, s: Seq<u64>| #![trigger denotes(this.cts@[j], i, s)] 0 <= j < this.cts.len() && 0 <= i < ctx_n(bctx(*this)) && denotes(this.cts@[j], i, s) implies denotes(ret.cts@[j], i, rmul(s, red_seq(rhs.values@, cq(bctx(*this), i)), cq(bctx(*this), i))) by {
        let v = red_seq(rhs.values@, cq(bctx(*this), i)); assert(denotes(pt0, i, v)); assert(denotes(pt_poly, i, v)); 
        assert(poly_wf(this.cts@[j])); assert(poly_wf(ret.cts@[j]));
        assert forall|k: int| 0 <= k < bctx(*this).degree implies #[trigger] ret.cts@[j].coefficients.rows@[i]@[k] == (pc(this.cts@[j], i, k) * pc(pt_poly, i, k)) % cq(bctx(*this), i) by { assert(pc(ret.cts@[j], i, k) == (bc(*this, j, i, k) * pc(pt_poly, i, k)) % cq(bctx(*this), i)); }
        lemma_mul_den(this.cts@[j], pt_poly, ret.cts@[j], i, s, v);
      } }

== bfv::SecretKey::new
ensures
    ret.coeffs@ == coeffs@, ret.params == *params,

== bfv::SecretKey::generate
requires
    1 <= params.variance <= 16, params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    ret.params == *params, ret.coeffs@.len() == params.degree, bounded(ints_i(ret.coeffs@), 2 * params.variance),

== bfv::BfvParameters::ctx_level
ensures
    ret matches Some(l) ==> l < this.q_ctxs.len() && this.q_ctxs@[l as int] == *of_ctx && (forall|j: int| 0 <= j < l ==> this.q_ctxs@[j] != *of_ctx),
    ret is None ==> forall|j: int| 0 <= j < this.q_ctxs.len() ==> this.q_ctxs@[j] != *of_ctx,
inv 0
    $n == this.q_ctxs.len(), forall|j: int| 0 <= j < $i ==> this.q_ctxs@[j] != *of_ctx,

== bfv::SecretKey::encrypt_poly
refuses
requires
    poly_wf(*pt), bfv_wf(*this.params), this.coeffs.len() == pt.context.degree, exists|l: int| 0 <= l < this.params.q_ctxs.len() && #[trigger] this.params.q_ctxs@[l] == pt.context, pt.context.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    pt.representation == Representation::Ntt, bct_wf(ret), ret.params == this.params, ret.cts.len() == 2, ret.params.q_ctxs@[ret.level as int] == pt.context,
    exists|s: Poly, e: Poly, z: Seq<int>| #[trigger] enc_rel(*this, *pt, ret, s, e, z),
let sk
    let ghost sk0 = sk;
let rng
    let ghost rng0 = rng;
let b
    let ghost e0 = b;
exit
    proof {
      lemma_sk(sk0, sk, this.coeffs@); let r = rng0; let v = this.params.variance as nat; lemma_small_cbd(e0, r, v);
      let z = Seq::new(e0.context.degree as nat, |k: int| cbd_sample(r, v, k as nat));
      assert forall|i: int, k: int| 0 <= i < ctx_n(*pt.context) && 0 <= k < pt.context.degree implies #[trigger] bc(ret, 0, i, k) == (pc(e0, i, k) + pc(*pt, i, k) - bc(ret, 1, i, k) * pc(sk, i, k)) % cq(*pt.context, i) by {
        let q = cq(*pt.context, i); lemma_ctx(pctx(*pt), i); let x = bc(ret, 1, i, k) * pc(sk, i, k); 
        lemma_mod_sub2(pc(e0, i, k), x, q); lemma_mod_add2(pc(e0, i, k) - x, pc(*pt, i, k), q); lemma_small_mod(pc(*pt, i, k) as nat, q as nat); }
      assert(enc_rel(*this, *pt, ret, sk, e0, z)); }

== bfv::SecretKey::decrypt_trial
refuses
requires
    poly_wf(*ct0), poly_wf(*ct1), this.coeffs.len() == ct0.context.degree,
ensures
    ct0.context == ct1.context, poly_wf(ret), ret.context == ct0.context, ret.representation == Representation::Ntt, exists|s: Poly| is_sk(s, this.coeffs@) && s.context == ct0.context && #[trigger] phase2(s, *ct0, *ct1, ret),
let sk
    let ghost sk0 = sk;
exit
    proof { lemma_sk(sk0, sk, this.coeffs@);
      assert forall|i: int, k: int| 0 <= i < ctx_n(*ct0.context) && 0 <= k < ct0.context.degree implies #[trigger] pc(ret, i, k) == (pc(*ct0, i, k) + pc(*ct1, i, k) * pc(sk, i, k)) % cq(*ct0.context, i) by {
        let q = cq(*ct0.context, i); lemma_ctx(pctx(*ct0), i); let x = pc(sk, i, k) * pc(*ct1, i, k); assert(x == pc(*ct1, i, k) * pc(sk, i, k)) by(nonlinear_arith) requires x == pc(sk, i, k) * pc(*ct1, i, k); lemma_mod_add2(x, pc(*ct0, i, k), q); lemma_small_mod(pc(*ct0, i, k) as nat, q as nat); }
      assert(phase2(sk, *ct0, *ct1, ret)); }

== bfv::SecretKey::decrypt
requires
    bct_wf(*ct), bfv_wf(*this.params), ct.params == this.params, this.coeffs.len() == this.params.degree,
ensures
    ret.level == ct.level, ret.params == this.params, exists|s: Poly, mb: Poly| #[trigger] dec_rel(*this, *ct, s, mb, ret.values@),
let sk
    let ghost sk0 = sk; 
entry
    proof { lemma_level0(arcv(this.params), ct.level as int); }
before 0
    proof { lemma_sk(sk0, sk, this.coeffs@); assert(bct_wf(*ct)); assert(poly_wf(ct.cts@[0]));
      assert forall|i: int, k: int| 0 <= i < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree implies #[trigger] pc(m, i, k) == phs(ct.cts@, sk, i, k, 1) % cq(bctx(*ct), i) by { lemma_pow0(pc(sk, i, k)); let q = cq(bctx(*ct), i); assert(phs(ct.cts@, sk, i, k, 0) == 0); assert(phs(ct.cts@, sk, i, k, 1) == pc(m, i, k) * 1); lemma_small_mod(pc(m, i, k) as nat, q as nat); }
      assert forall|i: int, k: int| 0 <= i < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree implies #[trigger] pc(sk_i, i, k) == pow(pc(sk, i, k), 1) % cq(bctx(*ct), i) by { lemma_pow1(pc(sk, i, k)); let q = cq(bctx(*ct), i); lemma_small_mod(pc(sk_i, i, k) as nat, q as nat); } }
inv 0
    $n == ct.cts.len(), bct_wf(*ct), $i >= 1, is_sk(sk, this.coeffs@), sk.context == ct.params.q_ctxs@[ct.level as int],
    poly_wf(m), m.context == sk.context, m.representation == Representation::Ntt, poly_wf(sk_i), sk_i.context == sk.context, sk_i.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree ==> #[trigger] pc(m, i, k) == phs(ct.cts@, sk, i, k, $i as nat) % cq(bctx(*ct), i),
    forall|i: int, k: int| 0 <= i < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree ==> #[trigger] pc(sk_i, i, k) == pow(pc(sk, i, k), $i as nat) % cq(bctx(*ct), i),
begin 0
    let ghost m0 = m; let ghost si0 = sk_i;
end 0
    proof {
      assert forall|ii: int, k: int| 0 <= ii < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree implies #[trigger] pc(m, ii, k) == phs(ct.cts@, sk, ii, k, (i + 1) as nat) % cq(bctx(*ct), ii) by {
        let q = cq(bctx(*ct), ii); lemma_ctx(bctx(*ct), ii); let P = pow(pc(sk, ii, k), i as nat); let c = bc(*ct, i as int, ii, k); let a = pc(si0, ii, k);
        assert(a == P % q); lemma_mod_twice(P, q); lemma_cong_mul(a, P, c, c, q); assert(P * c == c * P) by(nonlinear_arith);
        let A = phs(ct.cts@, sk, ii, k, i as nat); lemma_mod_add2(A, c * P, q); assert(pc(m0, ii, k) == A % q); assert((a * c) % q == (c * P) % q); }
      assert forall|ii: int, k: int| 0 <= ii < ctx_n(bctx(*ct)) && 0 <= k < bctx(*ct).degree implies #[trigger] pc(sk_i, ii, k) == pow(pc(sk, ii, k), (i + 1) as nat) % cq(bctx(*ct), ii) by {
        let q = cq(bctx(*ct), ii); lemma_ctx(bctx(*ct), ii); let b = pc(sk, ii, k); let P = pow(b, i as nat); lemma_mod_twice(P, q); lemma_cong_mul(pc(si0, ii, k), P, b, b, q); assert(pow(b, (i + 1) as nat) == b * P) by { reveal(pow); } assert(b * P == P * b) by(nonlinear_arith); } }
after 0
    let ghost mn = m;
pre m
    let ghost mb0 = m;
inv 1
    $n == this.params.degree, $out.len() == $i, canon(m.coefficients, *this.params.pt_ctx), 2 <= this.params.plaintext_modulus_u64 < 0x4000_0000_0000_0000, bfv_wf(*this.params), cq(*this.params.pt_ctx, 0) < 0x4000_0000_0000_0000,
    forall|k: int| 0 <= k < $i ==> #[trigger] $out@[k] as int == pc(m, 0, k) + this.params.plaintext_modulus_u64,
exit
    proof {
      let c = bctx(*ct); let P = arcv(this.params); let q0 = P.ciphertext_moduli@[0] as int; let t = P.plaintext_modulus_u64 as int;
      assert forall|i: int| 0 <= i < ctx_n(c) implies fwd_post(#[trigger] c.ntt_ops@[i], mb0.coefficients.rows@[i]@, ph_row(*ct, sk, i)) by {
        let r = mn.coefficients.rows@[i]@; lemma_ctx(c, i); let q = cq(c, i);
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] == ph_row(*ct, sk, i)[k] && r[k] < q by { assert(pc(mn, i, k) == phs(ct.cts@, sk, i, k, ct.cts.len() as nat) % q); assert(mn.coefficients.rows@[i]@[k] < mn.context.moduli_64@[i]); }
        assert(r =~= ph_row(*ct, sk, i)); lemma_bwd_fwd(c.ntt_ops@[i], r, mb0.coefficients.rows@[i]@); }
      assert forall|k: int| 0 <= k < ret.values@.len() implies #[trigger] ret.values@[k] as int == dec_coeff(P, rqs_val(P.scalars@[ct.level as int], mb0, k)) by {
        assert(pc(m, 0, k) == rqs_val(P.scalars@[ct.level as int], mb0, k) % q0); }
      assert(dec_rel(*this, *ct, sk, mb0, ret.values@)); }

== bfv::Plaintext::to_poly
requires
    bfv_wf(*this.params), this.level < this.params.q_ctxs.len(), this.values.len() == this.params.degree,
ensures
    poly_wf(ret), ret.context == this.params.q_ctxs@[this.level as int], ret.representation == Representation::Ntt,
    (forall|k: int| 0 <= k < this.values.len() ==> #[trigger] this.values@[k] < this.params.plaintext_modulus_u64) ==> exists|V: Seq<int>| scaled_msg(ret.context.rns.product.v() as int, this.params.plaintext_modulus_u64 as int, this.values@, V) && #[trigger] den_int(ret, V),
entry
    proof { lemma_level0(arcv(this.params), this.level as int); }
let poly
    let ghost pb0 = poly;
exit
    proof { if forall|k: int| 0 <= k < this.values.len() ==> #[trigger] this.values@[k] < this.params.plaintext_modulus_u64 {
      let dl = this.params.delta_ts@[this.level as int];
      let f = choose|f: Poly| #[trigger] same_den(pb0, f) && f.context == pb0.context && f.representation == Representation::Ntt && poly_wf(f) && pointwise(f, dl, ret);
      lemma_to_poly(arcv(this.params), this.level as int, this.values@, values@, pb0, f, ret);
      assert(den_int(ret, vseq(ret.context.rns.product.v() as int, this.params.plaintext_modulus_u64 as int, this.values@, values@))); } }

== bfv::SecretKey::encrypt
requires
    bfv_wf(*this.params), pt.params == this.params, pt.level < pt.params.q_ctxs.len(), pt.values.len() == pt.params.degree, this.coeffs.len() == pt.params.degree, pt.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    bct_wf(ret), ret.params == this.params, ret.cts.len() == 2, bctx(ret) == *pt.params.q_ctxs@[pt.level as int],
    (forall|k: int| 0 <= k < pt.values.len() ==> #[trigger] pt.values@[k] < pt.params.plaintext_modulus_u64) ==> exists|s: Poly, e: Poly, z: Seq<int>, V: Seq<int>| #[trigger] enc_msg(*this, pt.values@, ret, s, e, z, V),
entry
    proof { lemma_level0(arcv(pt.params), pt.level as int); }
exit
    proof { if forall|k: int| 0 <= k < pt.values.len() ==> #[trigger] pt.values@[k] < pt.params.plaintext_modulus_u64 {
      let (s, e, z) = choose|s: Poly, e: Poly, z: Seq<int>| #[trigger] enc_rel(*this, poly, ret, s, e, z);
      let V = choose|V: Seq<int>| scaled_msg(poly.context.rns.product.v() as int, pt.params.plaintext_modulus_u64 as int, pt.values@, V) && #[trigger] den_int(poly, V);
      assert(enc_msg(*this, pt.values@, ret, s, e, z, V)); } }

== bfv::MultiplicationParameters::new
requires
    ctx_wf(**from), ctx_wf(**to), from.degree == to.degree, up_factor.denominator.v() > 0, down_factor.denominator.v() > 0,
    up_factor.is_one == (up_factor.numerator.v() == up_factor.denominator.v()), down_factor.is_one == (down_factor.numerator.v() == down_factor.denominator.v()),
ensures
    ret.from == *from, ret.to == *to, rqs_wf(ret.up_scaler), ret.up_scaler.from == *from, ret.up_scaler.to == *to, ret.up_scaler.scaling_factor == up_factor,
    rqs_wf(ret.down_scalar), ret.down_scalar.from == *to, ret.down_scalar.to == *from, ret.down_scalar.scaling_factor == down_factor,

== bfv::BfvParameters::new
refuses
requires
    1 <= ciphertext_moduli.len() <= 0x4000, distinct_primes(ciphertext_moduli@), 2 <= plaintext_modulus_u64, forall|i: int| 0 <= i < ciphertext_moduli.len() ==> plaintext_modulus_u64 < #[trigger] ciphertext_moduli@[i],
    1 <= variance <= 16, 1 <= degree < 0x0100_0000_0000_0000,
ensures
    bfv_wf(ret), ret.degree == degree, ret.plaintext_modulus_u64 == plaintext_modulus_u64, ret.ciphertext_moduli@ == ciphertext_moduli@, ret.variance == variance,
entry
    let ghost cm = ciphertext_moduli@; let ghost K = cm.len(); let ghost n = degree as int; let ghost T = plaintext_modulus_u64 as int;
    proof { lemma_pow64(); lemma_pow2_unfold(62); assert(is_prime(cm[0] as nat)); assert(T < cm[0]);  }
isolate 0
inv 0
    ciphertext_moduli@ == cm, K == cm.len(), 1 <= K <= 0x4000, extended_basis_moduli.len() <= K + 1, 0 < upper_bound <= pow2(62), degree < 0x0100_0000_0000_0000, 1 <= degree,
    pow2(62) == 0x4000_0000_0000_0000, pow2(61) == 0x2000_0000_0000_0000,
    ext_ok(cm, extended_basis_moduli@),
dec 0
    upper_bound
begin 0
    let ghost e0 = extended_basis_moduli@;
end 0
    proof { assert(ext_ok(cm, extended_basis_moduli@)); }
isolate 1
inv 1
    $n == K, ciphertext_moduli@ == cm, K == cm.len(), $out.len() == $i, distinct_primes(cm), 2 <= T, T == plaintext_modulus_u64, forall|i: int| 0 <= i < cm.len() ==> T < #[trigger] cm[i],
    forall|i: int| 0 <= i < $i ==> ($out@[i] * -T) % (#[trigger] cm[i] as int) == 1,
begin 1
    proof { let q = cm[$i as int] as int; assert(is_prime(q as nat)); assert(T < cm[$i as int]); lemma_cong_intro(q - T, -T, 1, q); lemma_small_mod((q - T) as nat, q as nat); }
end 1
    proof { let q = cm[$i as int] as int; let x = out_1@[$i as int] as int; lemma_cong_mul(x, x, q - T, -T, q); }
after 0
    let ghost ext = extended_basis_moduli@;
let t_invs_rests
    let ghost tinv = t_invs_rests@;
isolate 2
inv 2
    t_5 == K, ciphertext_moduli@ == cm, K == cm.len(), 1 <= K <= 0x4000, distinct_primes(cm), 2 <= T, T == plaintext_modulus_u64, plaintext_modulus_u64 < 0x4000_0000_0000_0000, 1 <= degree < 0x0100_0000_0000_0000, n == degree, ext.len() == K + 1, ext_ok(cm, ext), extended_basis_moduli@ == ext,
    t_invs_rests@ == tinv, tinv.len() == K, forall|i: int| 0 <= i < K ==> (tinv[i] * -T) % (#[trigger] cm[i] as int) == 1,
    ctx_wf(*pt_ctx), pt_ctx.moduli_64@ == cm.take(1), pt_ctx.degree == n,
    q_ctxs.len() == $i, e_ctxs.len() == $i, mul_params.len() == $i, q_mod_ts.len() == $i, t_inv_polys.len() == $i, scalars.len() == $i,
    forall|l: int| 0 <= l < $i ==> #[trigger] lvl(cm, T, n, pt_ctx, q_ctxs@[l], scalars@[l], q_mod_ts@[l] as int, t_inv_polys@[l], e_ctxs@[l], mul_params@[l], l),
begin 2
    proof { lemma_ext(cm, ext, 0, K - $i); assert(K - $i <= cm.len()); }
let q_ctx_i
    proof { let Q = q_ctx_i.rns.product.v() as int; lemma_pow64(); lemma_mod_range(Q, T); lemma_prodq_pos(q_ctx_i.rns.moduli_u64@, q_ctx_i.rns.moduli_u64.len() as nat); }
let t_inv_poly
    let ghost d0 = t_inv_poly;
inv 3
    $n == moduli.len(), moduli.len() <= 0x4000, $acc <= 62 * $i, distinct_primes(moduli@), 0 <= prodq(moduli@, $i as nat) <= pow2($acc as nat),
begin 3
    let ghost acc0 = $acc as nat;
    proof { assert(is_prime(moduli@[$i as int] as nat)); lemma_pow64(); assert forall|l: u32| #[trigger] has_lz(moduli@[$i as int] as nat, 64, l as int) implies l >= 2 by { if l < 2 { lemma_pow2_mono(62, (63 - l) as nat); } } }
end 3
    proof { let b = ($acc - acc0) as nat; lemma_bits_step(prodq(moduli@, $i as nat), moduli@[$i as int] as int, acc0, b); }
after 3
    let ghost S = $acc as nat;
    proof { assert((62 * moduli.len() + 121) / 62 <= K + 1); }
isolate 4
inv 4
    $n == extended_basis_count, extended_basis_count <= ext.len(), extended_basis_moduli@ == ext, extended_basis_i@ == moduli@ + ext.take($i as int),
begin 4
    proof { assert(ext.take(i_17 + 1) =~= ext.take(i_17 as int).push(ext[i_17 as int])); }
end 4
    proof { }
let mul_i
    proof {
      let c = arcv(q_ctx_i); let d1 = t_inv_polys@[i as int];
      assert forall|i: int| 0 <= i < ctx_n(c) implies (v_10@[0].v() * -T) % #[trigger] cq(c, i) == 1 by { lemma_ctx(c, i); let q = cq(c, i); assert(q == cm[i]); assert((tinv[i] * -T) % (cm[i] as int) == 1); let v = v_10@[0].v() as int; assert(v % (c.rns.moduli_u64@[i] as int) == tinv[i] as int % q); lemma_cong_mul(v, tinv[i] as int, -T, -T, q); }
      lemma_delta(d0, d1, v_10@[0].v() as int, T);
      let ce = arcv(e_ctx_i); let mm = c.moduli_64@; let cnt = extended_basis_count as nat; lemma_prodq_pos(mm, mm.len()); lemma_ext_room(mm, ext, cnt, S); assert(ce.moduli_64@ =~= mm + ext.take(cnt as int)); assert(ce.rns.product.v() == prodq(mm + ext.take(cnt as int), mm.len() + cnt));
      assert(lvl(cm, T, n, pt_ctx, q_ctx_i, scalar_i, qi_mod_t_i as int, d1, e_ctx_i, mul_i, i as int)); }
after 2
    let ghost L = choose|k: nat| k < 61 && degree == #[trigger] pow2(k);
    proof { lemma_pow64(); lemma_pow60(); lemma_pow2_strict(L); lemma2_to64(); lemma_pow2_unfold(L); lemma_pow2_unfold(L + 1); lemma_pow3(n, 0); lemma_pow0(3); lemma_small_mod(1, (2 * n) as nat); assert(pow3(n, 0) == 1); }
isolate 5
inv 5
    row_size == n / 2, m == 2 * n, n == degree, 8 <= degree < 0x0100_0000_0000_0000, degree == pow2(L), row_size == pow2((L - 1) as nat), 3 <= L < 60, matrix_reps_index_map.len() == n, pow2(1) == 2, gen == 3,
    pos == pow3(n, $i as int), pos % 2 == 1, 0 < pos < 2 * n, m == pow2(L + 1), pow2(64) == 0x1_0000_0000_0000_0000,
    forall|j: int| 0 <= j < $i ==> #[trigger] map_at(matrix_reps_index_map@, L, n, j),
begin 5
    let ghost map0 = matrix_reps_index_map@;
    proof { lemma_rev(L, degree, ((pos - 1) / 2) as nat); lemma_rev(L, degree, ((m - pos - 1) / 2) as nat); lemma_or_pow2(row_size, $i, (L - 1) as nat); lemma_pow3(n, $i as nat); lemma_pow3(n, ($i + 1) as nat);
      assert forall|x: usize, ml: usize| ml == m - 1 implies #[trigger] (x & ml) == x % m by { vstd::bits::lemma_usize_low_bits_mask_is_mod(x, L + 1); assert(vstd::bits::low_bits_mask(L + 1) == ml); } }
end 5
    proof { assert forall|j: int| 0 <= j < $i + 1 implies #[trigger] map_at(matrix_reps_index_map@, L, n, j) by { if j < $i { assert(map_at(map0, L, n, j)); } } }
exit
    proof { let o = pt_ntt.unwrap(); lemma_nlog(o); assert(nlog(o) == L) by { lemma_pow2_inj(nlog(o), L); } 
      assert forall|l: int| 0 <= l < K implies level_wf(ret, l) by { assert(lvl(cm, T, n, pt_ctx, ret.q_ctxs@[l], ret.scalars@[l], ret.q_mod_ts@[l] as int, ret.delta_ts@[l], ret.e_ctxs@[l], ret.mul_params@[l], l)); } }

== bfv::BfvParameters::generate_moduli
refuses
requires
    1 <= degree < 0x0100_0000_0000_0000,
ensures
    ret matches Some(m) ==> m.len() == moduli_sizes.len() && gm_ok(moduli_sizes@, degree as int, m@),
    ret is None ==> exists|m: Seq<u64>| m.len() < moduli_sizes.len() && gm_ok(moduli_sizes@, degree as int, m) && #[trigger] gm_all(moduli_sizes@[m.len() as int] as nat, degree as int, m),
entry
    proof { lemma_pow64(); }
isolate 0
inv 0
    $n == moduli_sizes.len(), 1 <= degree < 0x0100_0000_0000_0000, moduli.len() == $i, gm_ok(moduli_sizes@, degree as int, moduli@),
begin 0
    let ghost m0 = moduli@; let ghost sz = moduli_sizes@[$i as int] as nat;
before 1
    proof { lemma_pow64(); lemma_pow2_mono(sz, 62); lemma_pow2_pos(sz); lemma_small_mod(pow2(sz), pow2(64)); }
isolate 1
xinv 1
    moduli@ == m0, gm_from(sz, degree as int, m0, upper_bound as int),
inv 1
    $i0 < moduli_sizes.len(), gm_ok(moduli_sizes@, degree as int, m0), 10 <= sz <= 62, sz == moduli_sizes@[$i0 as int], m0.len() == $i0, 1 <= degree < 0x0100_0000_0000_0000, 0 < upper_bound <= pow2(sz),
lens 1
    moduli.len() == $i0 + 1, gm_ok(moduli_sizes@, degree as int, moduli@),
dec 1
    upper_bound
begin 1
    proof { let n = degree as int; assert((forall|q: u64| #[trigger] is_prime(q as nat) && gm_at(sz, n, q as int) ==> q >= upper_bound) ==> gm_all(moduli_sizes@[m0.len() as int] as nat, n, m0));
      assert forall|p: u64| !m0.contains(p) && is_prime(p as nat) && gm_at(sz, n, p as int) implies gm_ok(moduli_sizes@, n, #[trigger] m0.push(p)) by { lemma_gm_push(moduli_sizes@, n, m0, p); } }

== bfv::BfvParameters::default
refuses
requires
    1 <= num_of_moduli <= 0x4000, 1 <= degree < 0x0100_0000_0000_0000,
ensures
    bfv_wf(ret), ret.degree == degree, ret.plaintext_modulus_u64 == 1153, ret.ciphertext_moduli.len() == num_of_moduli, ret.variance == 10,
let moduli
    proof { lemma_pow64(); lemma_pow2_unfold(62); assert forall|i: int| 0 <= i < moduli.len() implies 1153 < #[trigger] moduli@[i] by { assert(moduli@[i] >= 0x2000_0000_0000_0000); } }

== bfv::GaliosKey::new
refuses
requires
    bfv_wf(*sk.params), galios_level < sk.params.q_ctxs.len(), sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x4000_0000, subst_wf(*i, *sk.params.q_ctxs@[galios_level as int]),
ensures
    gal_wf(ret), ret.galios_level == galios_level, ret.substitution == *i, ret.gk.params == sk.params,
    exists|s: Poly, ss: Poly, zs: Seq<Seq<int>>| #[trigger] gal_enc(ret, s, ss, sk.coeffs@, zs, 2 * sk.params.variance),
entry
    proof { lemma_level0(arcv(sk.params), galios_level as int); }
let sk_poly
    let ghost sk0 = sk_poly;
let sk_i_poly
    let ghost ss0 = sk_i_poly;
exit
    proof { let e = i.exponent as int; let cf = sk.coeffs@; let z0 = ints_i(cf);
      assert forall|i: int, k: int| 0 <= i < ctx_n(*sk0.context) && 0 <= k < sk0.context.degree implies #[trigger] sk0.coefficients.rows@[i]@[k] == z0[k] % cq(*sk0.context, i) by { assert(z0[k] == cf[k]); }
      lemma_den_red(sk0, sk0, z0); lemma_sub_den_int(sk0, ss0, ints_i(cf), e); assert(den_int(sk_i_poly, nsubst(ints_i(cf), e))) by { assert forall|i: int| 0 <= i < ctx_n(*sk_i_poly.context) implies #[trigger] denotes(sk_i_poly, i, modseq(nsubst(ints_i(cf), e), cq(*sk_i_poly.context, i))) by { assert(denotes(ss0, i, modseq(nsubst(ints_i(cf), e), cq(*sk_i_poly.context, i)))); } }
      let (s, zs) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, sk.coeffs@) && #[trigger] ksk_enc(gk, s, sk_i_poly, zs, 2 * sk.params.variance);
      assert(gal_enc(ret, s, sk_i_poly, cf, zs, 2 * sk.params.variance)); }

== bfv::GaliosKey::relinearize
refuses
requires
    gal_wf(*this), bct_wf(*ct), ct.cts.len() >= 2, ct.params == this.gk.params,
ensures
    ct.level == this.galios_level, bct_wf(ret), ret.cts.len() == 2, ret.params == ct.params, ret.level == ct.level,
    exists|d: Poly, r0: Poly| #[trigger] gal_out(*this, *ct, ret, d, r0),
let c1_r
    let ghost t1 = c1_r;
let c0
    let ghost r0 = c0;
exit
    proof { let c = arcv(this.gk.ct_context); assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies cong(#[trigger] zev(c, ints(c1_r.coefficients.rows@[i]@), i, k), bc(*ct, 1, i, sub_src(c, this.substitution.exponent as int, k)), cq(c, i)) by { lemma_digit_val(c1_r, t1, i, k); assert(pc(t1, i, k) == pc(ct.cts@[1], i, sub_src(c, this.substitution.exponent as int, k))); }
      assert(gal_out(*this, *ct, ret, c1_r, r0)); }

== bfv::RelinearizationKey::new
refuses
requires
    bfv_wf(*sk.params), level < sk.params.q_ctxs.len(), sk.coeffs.len() == sk.params.degree, sk.params.degree <= 0x00ff_ffff_ffff_ffff,
ensures
    relin_wf(ret, level as int), ret.params == sk.params, exists|s: Poly, s2: Poly, zs: Seq<Seq<int>>| #[trigger] relin_enc(ret, s, s2, sk.coeffs@, zs, 2 * sk.params.variance),
entry
    proof { lemma_level0(arcv(sk.params), level as int); }
let sk_poly
    let ghost sk0 = sk_poly;
let s2
    proof { lemma_sk(sk0, sk_poly, sk.coeffs@); }
exit
    proof { let (s, zs) = choose|s: Poly, zs: Seq<Seq<int>>| is_sk(s, sk.coeffs@) && #[trigger] ksk_enc(ksk, s, s2, zs, 2 * sk.params.variance);
      assert forall|i: int, j: int| 0 <= i < ctx_n(*s.context) && 0 <= j < s.context.degree implies #[trigger] pc(s2, i, j) == (pc(s, i, j) * pc(s, i, j)) % cq(*s.context, i) by { lemma_same_sk(s, sk_poly, sk.coeffs@, i); assert(pc(s, i, j) == pc(sk_poly, i, j)); }
      assert(relin_enc(ret, s, s2, sk.coeffs@, zs, 2 * sk.params.variance)); }

== bfv::RelinearizationKey::relinearize_poly
refuses
requires
    ksk_wf(this.ksk), poly_wf(*p),
ensures
    p.context == this.ksk.ct_context, row_wf(ret.0, p.context), row_wf(ret.1, p.context), relin_out(*this, *p, ret.0, ret.1),

== bfv::Plaintext::new
refuses
requires
    bfv_wf(**params), encoding == Encoding::Poly ==> values.len() <= params.degree, encoding == Encoding::SIMD ==> values.len() >= params.degree && forall|k: int| 0 <= k < values.len() ==> #[trigger] values@[k] < params.plaintext_modulus_u64,
ensures
    ret.params == *params, ret.level == level, ret.encoding == encoding, encodes(**params, encoding, values@, ret.values@),
    (forall|k: int| 0 <= k < values.len() ==> #[trigger] values@[k] < params.plaintext_modulus_u64) ==> forall|k: int| 0 <= k < ret.values.len() ==> #[trigger] ret.values@[k] < params.plaintext_modulus_u64,
entry
    proof { lemma_map_ok(arcv(*params)); }
    let ghost M = pt_map(arcv(*params)); let ghost n = params.degree as int; let ghost L = nlog(pt_op(arcv(*params)));
inv 0
    $n == n, encoded_vals.len() == n, M == params.matrix_reps_index_map@, map_ok(M, L, n), values.len() >= n, forall|k: int| 0 <= k < values.len() ==> #[trigger] values@[k] < params.plaintext_modulus_u64,
    forall|k: int| 0 <= k < n ==> #[trigger] encoded_vals@[k] < params.plaintext_modulus_u64, forall|j: int| 0 <= j < $i ==> encoded_vals@[#[trigger] M[j] as int] == values@[j],
begin 0
    let ghost i0 = $i as int;
    proof { lemma_map(M, L, n, i0); }
end 0
    proof { assert forall|j: int| 0 <= j < i0 + 1 implies encoded_vals@[#[trigger] M[j] as int] == values@[j] by { lemma_map(M, L, n, j); if j < i0 { if M[j] == M[i0] { lemma_map_inj(M, L, n, j, i0); } } } }
after 0
    let ghost ev = encoded_vals@; proof { assert forall|i: int| 0 <= i < n implies ev[#[trigger] M[i] as int] == values@[i] by { } }
exit
    proof { if encoding == Encoding::SIMD { let o = pt_op(arcv(*params)); assert forall|i: int| 0 <= i < n implies #[trigger] slot(o, M, ints(ret.values@), i) == values@[i] by { lemma_map(M, L, n, i); let t = M[i] as int; let x = npt(o, t); lemma_small_mod(values@[i] as nat, o.p.p as nat); } } }

== bfv::Plaintext::decode
refuses
requires
    bfv_wf(*this.params), this.values.len() == this.params.degree, forall|k: int| 0 <= k < this.values.len() ==> #[trigger] this.values@[k] < this.params.plaintext_modulus_u64,
ensures
    this.encoding != Encoding::None, decodes(*this.params, this.encoding, this.values@, ret@),
entry
    proof { lemma_map_ok(arcv(this.params)); }
    let ghost M = pt_map(arcv(this.params)); let ghost n = this.params.degree as int; let ghost L = nlog(pt_op(arcv(this.params))); let ghost o = pt_op(arcv(this.params));
inv 0
    $n == n, vals.len() == n, values.len() == n, M == this.params.matrix_reps_index_map@, map_ok(M, L, n), forall|j: int| 0 <= j < $i ==> #[trigger] vals@[j] == values@[M[j] as int],
begin 0
    proof { lemma_map(M, L, n, $i as int); }
exit
    proof { if this.encoding == Encoding::SIMD { assert forall|i: int| 0 <= i < n implies #[trigger] ret@[i] == slot(o, M, ints(this.values@), i) by { lemma_map(M, L, n, i); } } }

== bfv::Plaintext::set_encoding
ensures
    final(this).params == old(this).params, final(this).values == old(this).values, final(this).level == old(this).level, final(this).encoding == to,

== bfv::BfvCipherText::mul(BfvCipherText)
refuses
requires
    bct_wf(*this), bct_wf(*rhs), bfv_wf(*this.params), rhs.params == this.params, this.cts.len() + rhs.cts.len() <= 0x1_0000_0000,
ensures
    this.level == rhs.level, bct_wf(ret), ret.params == this.params, ret.level == this.level, ret.cts.len() == this.cts.len() + rhs.cts.len() - 1,
    exists|us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>| #[trigger] mul_rel(*this, *rhs, ret.cts@, us, os, ts),
entry
    proof { lemma_level0(arcv(this.params), this.level as int); }
inv 0
    $n == this.cts.len(), bct_wf(*this), $out.len() == $i, rqs_wf(mul_params.up_scaler), mul_params.up_scaler.from == this.params.q_ctxs@[this.level as int], forall|j: int| 0 <= j < $i ==> #[trigger] scaled(mul_params.up_scaler, this.cts@[j], $out@[j]),
end 0
    proof { assert(scaled(mul_params.up_scaler, this.cts@[$i as int], $out@[$i as int])); }
inv 1
    $n == rhs.cts.len(), bct_wf(*rhs), $out.len() == $i, rqs_wf(mul_params.up_scaler), mul_params.up_scaler.from == rhs.params.q_ctxs@[rhs.level as int], forall|j: int| 0 <= j < $i ==> #[trigger] scaled(mul_params.up_scaler, rhs.cts@[j], $out@[j]),
end 1
    proof { assert(scaled(mul_params.up_scaler, rhs.cts@[$i as int], $out@[$i as int])); }
let other_scaled
    let ghost us = self_scaled@; let ghost os = other_scaled@; let ghost E = mul_params.to; let ghost e = arcv(mul_params.to); let ghost up = mul_params.up_scaler; let ghost na = this.cts.len() as int; let ghost nb = rhs.cts.len() as int;
    proof { assert forall|j: int| 0 <= j < us.len() implies row_wf(#[trigger] us[j], E) by { assert(scaled(up, this.cts@[j], us[j])); } assert forall|j: int| 0 <= j < os.len() implies row_wf(#[trigger] os[j], E) by { assert(scaled(up, rhs.cts@[j], os[j])); } }
isolate 2
before 2
    proof { assert forall|c: int, i: int, k: int| 0 <= c < cs.len() && 0 <= i < ctx_n(e) && 0 <= k < e.degree implies #[trigger] pc(cs@[c], i, k) == tens(us, os, c, i, k, 0) % cq(e, i) by { lemma_ctx(e, i); lemma_small_mod(0, cq(e, i) as nat); assert(cs@[c].coefficients.rows@[i]@[k] == 0); } }
inv 2
    $n == na, na == this.cts.len(), nb == rhs.cts.len(), na >= 1, nb >= 1, na + nb <= 0x1_0000_0000, us.len() == na, os.len() == nb, self_scaled@ == us, other_scaled@ == os, cs.len() == na + nb - 1, ctx_wf(*E), e == *E, forall|j: int| 0 <= j < us.len() ==> row_wf(#[trigger] us[j], E), forall|j: int| 0 <= j < os.len() ==> row_wf(#[trigger] os[j], E),
    forall|c: int| 0 <= c < cs.len() ==> row_wf(#[trigger] cs@[c], E),
    forall|c: int, i: int, k: int| 0 <= c < cs.len() && 0 <= i < ctx_n(e) && 0 <= k < e.degree ==> #[trigger] pc(cs@[c], i, k) == tens(us, os, c, i, k, $i as nat) % cq(e, i),
end 2
    proof { assert forall|c: int, i: int, k: int| 0 <= c < cs.len() && 0 <= i < ctx_n(e) && 0 <= k < e.degree implies #[trigger] pc(cs@[c], i, k) == tens(us, os, c, i, k, ($i + 1) as nat) % cq(e, i) by { } }
isolate 3
inv 3
    $n == nb, nb == rhs.cts.len(), 0 <= i < na, na + nb <= 0x1_0000_0000, us.len() == na, os.len() == nb, self_scaled@ == us, other_scaled@ == os, cs.len() == na + nb - 1, ctx_wf(*E), e == *E, forall|j: int| 0 <= j < us.len() ==> row_wf(#[trigger] us[j], E), forall|j: int| 0 <= j < os.len() ==> row_wf(#[trigger] os[j], E),
    forall|c: int| 0 <= c < cs.len() ==> row_wf(#[trigger] cs@[c], E),
    forall|c: int, l: int, k: int| 0 <= c < cs.len() && 0 <= l < ctx_n(e) && 0 <= k < e.degree ==> #[trigger] pc(cs@[c], l, k) == (tens(us, os, c, l, k, i as nat) + tterm(us, os, c, l, k, i as int, $i as int)) % cq(e, l),
begin 3
    let ghost cs0 = cs@; let ghost jj = $i as int;
    proof { assert(row_wf(cs0[i as int + jj], E)); }
end 3
    proof { assert forall|c: int, l: int, k: int| 0 <= c < cs.len() && 0 <= l < ctx_n(e) && 0 <= k < e.degree implies #[trigger] pc(cs@[c], l, k) == (tens(us, os, c, l, k, i as nat) + tterm(us, os, c, l, k, i as int, jj + 1)) % cq(e, l) by {
      lemma_ctx(e, l); assert(pc(cs0[c], l, k) == (tens(us, os, c, l, k, i as nat) + tterm(us, os, c, l, k, i as int, jj)) % cq(e, l));
      if c == i + jj { let u = pc(us[i as int], l, k); let o = pc(os[jj], l, k); assert(cs@[c].coefficients.rows@[l]@[k] == (pc(cs0[c], l, k) + (u * o) % cq(e, l)) % cq(e, l)); lemma_tens_step(pc(cs0[c], l, k), tens(us, os, c, l, k, i as nat), u, o, (u * o) % cq(e, l), pc(cs@[c], l, k), cq(e, l)); } else { assert(cs@[c] == cs0[c]); } }
      assert forall|c: int| 0 <= c < cs.len() implies row_wf(#[trigger] cs@[c], E) by { if c != i + jj { assert(cs@[c] == cs0[c]); } } }
after 2
    let ghost ts = cs@;
inv 4
    $n == ts.len(), cs@ == ts, $out.len() == $i, rqs_wf(mul_params.down_scalar), mul_params.down_scalar.from == E, forall|c: int| 0 <= c < ts.len() ==> row_wf(#[trigger] ts[c], E), forall|j: int| 0 <= j < $i ==> #[trigger] scaled(mul_params.down_scalar, ts[j], $out@[j]),
end 4
    proof { assert(scaled(mul_params.down_scalar, ts[$i as int], $out@[$i as int])); }
exit
    proof { assert forall|j: int| 0 <= j < ret.cts.len() implies row_wf(#[trigger] ret.cts@[j], ret.params.q_ctxs@[ret.level as int]) by { assert(scaled(mul_params.down_scalar, ts[j], ret.cts@[j])); } assert(mul_rel(*this, *rhs, ret.cts@, us, os, ts)); }

== bfv::multiply_with_strategy
refuses
requires
    bct_wf(*lhs), bct_wf(*rhs), bfv_wf(*lhs.params), relin_wf(*rlk_key, lhs.level as int),
ensures
    lhs.level == rhs.level, lhs.params == rhs.params, lhs.params == rlk_key.params, lhs.cts.len() == 2, rhs.cts.len() == 2, bct_wf(ret), same_shape(ret, *lhs),
    exists|us: Seq<Poly>, os: Seq<Poly>, ts: Seq<Poly>, ds: Seq<Poly>, r0: Poly, r1: Poly| #[trigger] mulr_rel(*lhs, *rhs, *rlk_key, ret, us, os, ts, ds, r0, r1),
entry
    proof { if lhs.level < lhs.params.q_ctxs.len() { lemma_level0(arcv(lhs.params), lhs.level as int); } }
let c
    let ghost us = seq![c0_0, c0_1]; let ghost os = seq![c1_0, c1_1]; let ghost ts = c@; let ghost E = mul_params.to; let ghost e = arcv(mul_params.to);
    proof {
      assert(scaled(mul_params.up_scaler, lhs.cts@[0], us[0]) && scaled(mul_params.up_scaler, lhs.cts@[1], us[1]) && scaled(mul_params.up_scaler, rhs.cts@[0], os[0]) && scaled(mul_params.up_scaler, rhs.cts@[1], os[1]));
      assert forall|x: int, i: int, k: int| 0 <= x < 3 && 0 <= i < ctx_n(e) && 0 <= k < e.degree implies #[trigger] pc(ts[x], i, k) == tens(us, os, x, i, k, 2) % cq(e, i) by {
        lemma_ctx(e, i); let q = cq(e, i); let a0 = pc(us[0], i, k); let a1 = pc(us[1], i, k); let b0 = pc(os[0], i, k); let b1 = pc(os[1], i, k);
        lemma_tens2(us, os, x, i, k); lemma_mod_add2(a0 * b1, a1 * b0, q);
        if x == 0 { assert(ts[0].coefficients.rows@[i]@[k] == (a0 * b0) % q); } else if x == 2 { assert(ts[2].coefficients.rows@[i]@[k] == (a1 * b1) % q); } else { assert(b0 * a1 == a1 * b0) by(nonlinear_arith); assert(ts[1].coefficients.rows@[i]@[k] == ((a0 * b1) % q + (b0 * a1) % q) % q); } } }
inv 0
    $n == 3, c.len() == 3, ts.len() == 3, rqs_wf(mul_params.down_scalar), mul_params.down_scalar.from == E, forall|j: int| 0 <= j < 3 ==> row_wf(#[trigger] ts[j], E), forall|j: int| $i <= j < 3 ==> #[trigger] c@[j] == ts[j], forall|j: int| 0 <= j < $i ==> #[trigger] scaled(mul_params.down_scalar, ts[j], c@[j]),
end 0
    proof { assert(scaled(mul_params.down_scalar, ts[$i as int], c@[$i as int])); }
after 0
    let ghost ds = c@;
    proof { assert(scaled(mul_params.down_scalar, ts[0], ds[0]) && scaled(mul_params.down_scalar, ts[1], ds[1]) && scaled(mul_params.down_scalar, ts[2], ds[2])); }
exit
    proof { assert(mul_rel(*lhs, *rhs, ds, us, os, ts)); assert(mulr_rel(*lhs, *rhs, *rlk_key, ret, us, os, ts, ds, cr_0, cr_1)); }
