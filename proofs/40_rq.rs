// Polynomials over a residue number system.
pub open spec fn pctx(p: Poly) -> RqContext { *p.context }
pub open spec fn prns(p: Poly) -> RnsContext { *p.context.rns }
pub open spec fn ctx_n(c: RqContext) -> int { c.moduli_64.len() as int }
pub open spec fn cq(c: RqContext, i: int) -> int { c.moduli_64@[i] as int }
pub open spec fn ctx_wf(c: RqContext) -> bool decreases c.moduli_64.len(),
{
    &&& c.moduli_64.len() >= 1 && c.moduli_64.len() < 0x1_0000_0000 && c.moduli.len() == c.moduli_64.len() && c.ntt_ops.len() == c.moduli_64.len()
    &&& c.degree >= 8 && c.degree < 0x1000_0000_0000_0000 && (exists|k: nat| k < 61 && c.degree == #[trigger] pow2(k))
    &&& rns_wf(*c.rns) && c.rns.moduli_u64@ == c.moduli_64@
    &&& forall|i: int| 0 <= i < c.moduli.len() ==> mod_wf(#[trigger] c.moduli@[i]) && c.moduli@[i].p == c.moduli_64@[i]
    &&& forall|i: int| 0 <= i < c.ntt_ops.len() ==> ntt_wf(#[trigger] c.ntt_ops@[i]) && c.ntt_ops@[i].p == c.moduli@[i] && c.ntt_ops@[i].size == c.degree
    &&& c.q_last_inv_mod.len() == c.moduli_64.len() - 1 && c.q_last_inv_mod_shoup.len() == c.moduli_64.len() - 1
    &&& forall|i: int| 0 <= i < c.q_last_inv_mod.len() ==> 0 < #[trigger] c.q_last_inv_mod@[i] < c.moduli_64@[i] && (c.q_last_inv_mod@[i] * cq(c, ctx_n(c) - 1)) % cq(c, i) == 1 && c.q_last_inv_mod_shoup@[i] == shoup_of(c.q_last_inv_mod@[i] as int, cq(c, i))
    &&& c.bitrev.len() == c.degree && forall|k: int| 0 <= k < c.degree ==> #[trigger] c.bitrev@[k] == brv(nlog(c.ntt_ops@[0]), k as nat)
    &&& (c.moduli_64.len() >= 2) == c.next_ctx.is_some()
    &&& c.next_ctx.is_some() ==> { let d = c.next_ctx.unwrap(); d.moduli_64.len() == c.moduli_64.len() - 1 && ctx_wf(*d) && d.moduli_64@ == c.moduli_64@.take(c.moduli_64.len() - 1) && d.degree == c.degree }
}
pub open spec fn canon(a: Arr2, c: RqContext) -> bool { a.shape(ctx_n(c), c.degree as int) && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] a.rows@[i]@[k] < c.moduli_64@[i] }
pub open spec fn poly_wf(p: Poly) -> bool { ctx_wf(*p.context) && canon(p.coefficients, *p.context) }
pub open spec fn pc(p: Poly, i: int, k: int) -> int { p.coefficients.rows@[i]@[k] as int }
/// the polynomial denotes, modulo modulus i, the ring element with canonical coefficients a
pub open spec fn denotes(p: Poly, i: int, a: Seq<u64>) -> bool {
    a.len() == p.context.degree && (forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] < p.context.moduli_64@[i])
    && match p.representation { Representation::PowerBasis => p.coefficients.rows@[i]@ == a, _ => fwd_post(p.context.ntt_ops@[i], a, p.coefficients.rows@[i]@) }
}
pub proof fn lemma_ctx(c: RqContext, i: int) requires ctx_wf(c), 0 <= i < ctx_n(c), ensures is_prime(c.moduli_64@[i] as nat), c.moduli_64@[i] >= 2, c.moduli_64@[i] < 0x4000_0000_0000_0000,
{ assert(is_prime(c.rns.moduli_u64@[i] as nat)); }
/// conversion keeps the denotation
pub proof fn lemma_fwd_denotes(p: Poly, q: Poly, i: int)
    requires poly_wf(p), p.representation == Representation::PowerBasis, q.representation == Representation::Ntt, q.context == p.context, 0 <= i < ctx_n(*p.context), fwd_post(p.context.ntt_ops@[i], p.coefficients.rows@[i]@, q.coefficients.rows@[i]@),
    ensures forall|a: Seq<u64>| #[trigger] denotes(p, i, a) == denotes(q, i, a),
{
    let o = p.context.ntt_ops@[i]; let r = p.coefficients.rows@[i]@;
    assert forall|a: Seq<u64>| #[trigger] denotes(p, i, a) == denotes(q, i, a) by {
        if denotes(q, i, a) {
            assert forall|t: int| 0 <= t < o.size implies cong(bev(ints(a), 0, o.size as nat, #[trigger] npt(o, t)), bev(ints(r), 0, o.size as nat, npt(o, t)), o.p.p as int) by { assert(q.coefficients.rows@[i]@[t] < o.p.p); }
            assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < o.p.p by { assert(p.coefficients.rows@[i]@[k] < p.context.moduli_64@[i]); }
            lemma_eval_inj(o, a, r);
        }
    }
}
pub proof fn lemma_bwd_denotes(p: Poly, q: Poly, i: int)
    requires poly_wf(p), p.representation == Representation::Ntt, q.representation == Representation::PowerBasis, q.context == p.context, 0 <= i < ctx_n(*p.context), bwd_post(p.context.ntt_ops@[i], p.coefficients.rows@[i]@, q.coefficients.rows@[i]@),
    ensures forall|a: Seq<u64>| #[trigger] denotes(p, i, a) == denotes(q, i, a),
{
    let o = p.context.ntt_ops@[i]; let r = p.coefficients.rows@[i]@; let b = q.coefficients.rows@[i]@;
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < o.p.p by { assert(p.coefficients.rows@[i]@[k] < p.context.moduli_64@[i]); }
    assert(fwd_post(o, b, r)) by {
        assert forall|t: int| 0 <= t < o.size implies (#[trigger] r[t]) < o.p.p && r[t] as int == bev(ints(b), 0, o.size as nat, npt(o, t)) % (o.p.p as int) by { let x = npt(o, t); lemma_small_mod(r[t] as nat, o.p.p as nat); }
    }
    assert forall|a: Seq<u64>| #[trigger] denotes(p, i, a) == denotes(q, i, a) by {
        if denotes(p, i, a) { lemma_ntt_roundtrip(o, a, r, b); }
    }
}
pub proof fn lemma_ctx_all(c: RqContext) requires ctx_wf(c), ensures forall|i: int| 0 <= i < ctx_n(c) ==> is_prime(#[trigger] c.moduli_64@[i] as nat) && c.moduli_64@[i] >= 2 && c.moduli_64@[i] < 0x4000_0000_0000_0000,
{ assert forall|i: int| 0 <= i < ctx_n(c) implies is_prime(#[trigger] c.moduli_64@[i] as nat) && c.moduli_64@[i] >= 2 && c.moduli_64@[i] < 0x4000_0000_0000_0000 by { lemma_ctx(c, i); } }
pub proof fn lemma_bev_const(s: Seq<int>, n: nat, x: int) requires n >= 1, n <= s.len(), forall|k: int| 1 <= k < n ==> #[trigger] s[k] == 0, ensures bev(s, 0, n, x) == s[0], decreases n,
{ if n > 1 { lemma_bev_const(s, (n - 1) as nat, x); assert(s[n - 1] == 0); let y = pow(x, (n - 1) as nat); assert(0 * y == 0); } else { assert(bev(s, 0, 0, x) == 0); lemma_pow0(x); } }
/// a constant polynomial has constant transform
pub proof fn lemma_const_fwd(o: NttOperator, a: Seq<u64>, f: Seq<u64>, t: int)
    requires ntt_wf(o), a.len() == o.size, 0 <= t < o.size, fwd_post(o, a, f), a[0] < o.p.p, forall|k: int| 1 <= k < a.len() ==> #[trigger] a[k] == 0, ensures f[t] == a[0],
{ lemma_bev_const(ints(a), o.size as nat, npt(o, t)); lemma_small_mod(a[0] as nat, o.p.p as nat); }
pub proof fn lemma_const_mul(p: Poly, pb: Poly, r: Poly, res: Poly, v: int)
    requires poly_wf(p), poly_wf(pb), pb.context == p.context, r.context == p.context, poly_wf(r),
      forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree ==> #[trigger] pb.coefficients.rows@[i]@[k] == (if k < 1 { v % cq(*p.context, i) } else { 0 }),
      forall|i: int| 0 <= i < ctx_n(*p.context) ==> fwd_post(#[trigger] p.context.ntt_ops@[i], pb.coefficients.rows@[i]@, r.coefficients.rows@[i]@),
      forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree ==> #[trigger] res.coefficients.rows@[i]@[k] == (pc(p, i, k) * pc(r, i, k)) % cq(*p.context, i),
    ensures forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree ==> #[trigger] res.coefficients.rows@[i]@[k] == (pc(p, i, k) * v) % cq(*p.context, i),
{
    assert forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree implies #[trigger] res.coefficients.rows@[i]@[k] == (pc(p, i, k) * v) % cq(*p.context, i) by {
        lemma_ctx(*p.context, i); let q = cq(*p.context, i); let b = pb.coefficients.rows@[i]@; 
        assert forall|j: int| 1 <= j < b.len() implies #[trigger] b[j] == 0 by { assert(pb.coefficients.rows@[i]@[j] == 0); }
        assert(pb.coefficients.rows@[i]@[0] == v % q); lemma_mod_range(v, q);
        lemma_const_fwd(p.context.ntt_ops@[i], b, r.coefficients.rows@[i]@, k);
        let x = pc(p, i, k); lemma_cong_mul(x, x, v % q, v, q);
    }
}
/// column k: the integer in [0, Q) the k-th coefficient stands for
pub open spec fn pcol(p: Poly, k: int) -> Seq<u64> { Seq::new(p.coefficients.rows.len() as nat, |i: int| p.coefficients.rows@[i]@[k]) }
pub open spec fn pval(p: Poly, k: int) -> int { rns_val(*p.context.rns, pcol(p, k)) }
pub open spec fn is_cbd(r: VRng, v: nat, q: int, n: int, a: Seq<u64>) -> bool { a.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] a[k]) as int == cbd_sample(r, v, k as nat) % q }
/// dividing by the last modulus with rounding
pub open spec fn switched(p: Poly, k: int) -> int { let q = cq(*p.context, ctx_n(*p.context) - 1); (pval(p, k) + q / 2) / q }
pub open spec fn ctx_down(c: RqContext, k: nat) -> Option<RqContext> decreases k { if k == 0 { Some(c) } else { match ctx_down(c, (k - 1) as nat) { Some(d) => match d.next_ctx { Some(e) => Some(*e), None => None }, None => None } } }
pub proof fn lemma_pval(p: Poly, k: int) requires poly_wf(p), 0 <= k < p.context.degree,
    ensures 0 <= pval(p, k) < p.context.rns.product.v(), forall|i: int| 0 <= i < ctx_n(*p.context) ==> #[trigger] pc(p, i, k) == pval(p, k) % cq(*p.context, i),
{
    lemma_rns_val(prns(p), pcol(p, k));
    assert forall|i: int| 0 <= i < ctx_n(*p.context) implies #[trigger] pc(p, i, k) == pval(p, k) % cq(*p.context, i) by { assert(pcol(p, k)[i] == p.coefficients.rows@[i]@[k]); assert(p.context.rns.moduli_u64@[i] == p.context.moduli_64@[i]); lemma_small_mod(pc(p, i, k) as nat, cq(*p.context, i) as nat); }
}
pub proof fn lemma_cong_sub(a: int, b: int, c: int, d: int, m: int) requires m > 0, cong(a, b, m), cong(c, d, m), ensures cong(a - c, b - d, m),
{ lemma_cong_mul(c, d, -1, -1, m); lemma_cong_add(a, b, -1 * c, -1 * d, m); assert(c * -1 == -c && d * -1 == -d); lemma_cong_add(a, b, -c, -d, m); }
pub open spec fn q_last_of(s: Seq<u64>) -> int { s[s.len() - 1] as int }
pub proof fn lemma_pcol(p: Poly, k: int) ensures forall|s: Seq<u64>| s.len() == p.coefficients.rows.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p.coefficients.rows@[i]@[k]) ==> #[trigger] rns_val(*p.context.rns, s) == pval(p, k),
{ assert forall|s: Seq<u64>| s.len() == p.coefficients.rows.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p.coefficients.rows@[i]@[k]) implies #[trigger] rns_val(*p.context.rns, s) == pval(p, k) by { assert(s =~= pcol(p, k)); } }
pub proof fn lemma_ctx_down_none(c: RqContext, a: nat, j: nat) requires a < j, ctx_down(c, a) matches Some(d) && d.next_ctx.is_none(), ensures ctx_down(c, j).is_none(), decreases j,
{ if j > a + 1 { lemma_ctx_down_none(c, a, (j - 1) as nat); } }
/// the per-modulus arithmetic of switching down computes the rounded quotient
pub proof fn lemma_switch(o: Poly, i: int, k: int)
    requires poly_wf(o), 0 <= i < ctx_n(*o.context) - 1, 0 <= k < o.context.degree,
    ensures ({ let c = arcv(o.context); let m = ctx_n(c) - 1; let ql = cq(c, m); let q = cq(c, i); let h = ql / 2; let r = (pc(o, m, k) + h) % ql; 
       let x = pc(o, i, k); let inv = c.q_last_inv_mod@[i] as int;
       forall|t: u64| #[trigger] (t as int % q) == r % q ==> ((x + (3 * q - (t + (q - h % q)))) * inv) % q == switched(o, k) % q }),
{
    let c = arcv(o.context); let m = ctx_n(c) - 1; let ql = cq(c, m); let q = cq(c, i); let h = ql / 2; let r = (pc(o, m, k) + h) % ql; let x = pc(o, i, k); let inv = c.q_last_inv_mod@[i] as int;
    lemma_ctx(c, i); lemma_ctx(c, m); lemma_pval(o, k); let X = pval(o, k); let y = X + h; let s = y / ql;
    assert(pc(o, m, k) == X % ql && x == X % q);
    lemma_mod_range(X, ql); lemma_cong_add(X % ql, X, h, h, ql); assert(r == y % ql);
    lemma_fundamental_div_mod(y, ql); assert(y == ql * s + r);
    lemma_mod_range(X, q); lemma_mod_range(h, q);
    assert forall|t: u64| #[trigger] (t as int % q) == r % q implies ((x + (3 * q - (t + (q - h % q)))) * inv) % q == s % q by {
        let z = x + (3 * q - (t + (q - h % q)));
        lemma_cong_intro(z, x - t + h % q, 2, q);
        lemma_cong_add(x, X, h % q, h, q); lemma_cong_sub(x + h % q, X + h, t as int, r, q);
        assert(x + h % q - t == x - t + h % q);
        assert(cong(z, ql * s, q));
        lemma_cong_mul(z, ql * s, inv, inv, q);
        assert((ql * s) * inv == (inv * ql) * s) by(nonlinear_arith);
        lemma_small_mod(1, q as nat); lemma_cong_mul(inv * ql, 1, s, s, q);
    }
}
pub proof fn lemma_single(p: Poly, k: int) requires poly_wf(p), ctx_n(*p.context) == 1, 0 <= k < p.context.degree, ensures pval(p, k) == pc(p, 0, k), pval(p, k) < pow2(64),
{ let s = prns(p).moduli_u64@; lemma_pval(p, k); assert(prodq(s, 1) == prodq(s, 0) * s[0]); assert(prodq(s, 0) == 1); assert(1 * s[0] == s[0]); lemma_pow64(); assert(pc(p, 0, k) == pval(p, k) % cq(*p.context, 0)); lemma_small_mod(pval(p, k) as nat, s[0] as nat); }
/// the value of a coefficient after j switches
pub open spec fn pswitch(c: RqContext, v: int, j: nat) -> int decreases j { if j == 0 { v } else { match ctx_down(c, (j - 1) as nat) { Some(d) => { let q = cq(d, ctx_n(d) - 1); ((pswitch(c, v, (j - 1) as nat) + q / 2) / q) % prodq(d.moduli_64@, (ctx_n(d) - 1) as nat) }, None => 0 } } }
pub proof fn lemma_prodq_take(s: Seq<u64>, n: nat, m: int) requires n <= m <= s.len(), ensures prodq(s.take(m), n) == prodq(s, n), decreases n, { if n > 0 { lemma_prodq_take(s, (n - 1) as nat, m); } }
pub proof fn lemma_switch_val(o: Poly, f: Poly, k: int)
    requires poly_wf(o), poly_wf(f), ctx_n(*o.context) >= 2, f.context == o.context.next_ctx.unwrap(), 0 <= k < o.context.degree,
      forall|i: int| 0 <= i < ctx_n(*f.context) ==> #[trigger] f.coefficients.rows@[i]@[k] == switched(o, k) % cq(*o.context, i),
    ensures pval(f, k) == switched(o, k) % prodq(o.context.moduli_64@, (ctx_n(*o.context) - 1) as nat),
{
    let c = pctx(f); let oc = pctx(o); let m = ctx_n(oc) - 1; lemma_prodq_take(oc.moduli_64@, m as nat, m);
    assert forall|j: int| 0 <= j < pcol(f, k).len() implies #[trigger] pcol(f, k)[j] as int == switched(o, k) % (prns(f).moduli_u64@[j] as int) by { assert(f.coefficients.rows@[j]@[k] == switched(o, k) % cq(oc, j)); assert(c.moduli_64@[j] == oc.moduli_64@.take(m)[j]); }
    lemma_rns_unique(prns(f), pcol(f, k), switched(o, k));
}
pub proof fn lemma_down_len(c: RqContext, j: nat) requires ctx_wf(c), ensures ctx_down(c, j) matches Some(d) ==> ctx_wf(d) && d.moduli_64.len() + j == c.moduli_64.len() && d.degree == c.degree && (j > 0 ==> d.moduli_64.len() >= 1), decreases j,
{ if j > 0 { lemma_down_len(c, (j - 1) as nat); } }
pub proof fn lemma_down_has(c: RqContext, j: nat) requires ctx_wf(c), j < ctx_n(c), ensures ctx_down(c, j).is_some(), decreases j,
{ if j > 0 { lemma_down_has(c, (j - 1) as nat); lemma_down_len(c, (j - 1) as nat); } }

// ---- scaling between contexts
pub open spec fn rqs_wf(s: RqScaler) -> bool {
    &&& ctx_wf(*s.from) && ctx_wf(*s.to) && s.from.degree == s.to.degree && scaler_wf(s.rns_scaler) && *s.rns_scaler.from == *s.from.rns && *s.rns_scaler.to == *s.to.rns && s.rns_scaler.scaling_factor == s.scaling_factor
    &&& s.number_common_moduli <= ctx_n(*s.from) && s.number_common_moduli <= ctx_n(*s.to) && (s.number_common_moduli > 0 ==> s.scaling_factor.is_one)
    &&& forall|i: int| 0 <= i < s.number_common_moduli ==> #[trigger] s.from.moduli_64@[i] == s.to.moduli_64@[i]
}
pub open spec fn rqs_val(s: RqScaler, p: Poly, k: int) -> int { scale_z(s.rns_scaler, ints(pcol(p, k))) }
pub open spec fn rqs_row(s: RqScaler, p: Poly, i: int) -> Seq<u64> { Seq::new(s.to.degree as nat, |k: int| (rqs_val(s, p, k) % cq(*s.to, i)) as u64) }
pub open spec fn same_den(a: Poly, b: Poly) -> bool { forall|i: int, s: Seq<u64>| #![trigger denotes(a, i, s)] #![trigger denotes(b, i, s)] 0 <= i < ctx_n(*a.context) ==> denotes(a, i, s) == denotes(b, i, s) }
/// pb is p in coefficient form
pub open spec fn rqs_src(p: Poly, pb: Poly) -> bool { poly_wf(pb) && pb.context == p.context && pb.representation == Representation::PowerBasis && same_den(pb, p) }
pub proof fn lemma_src(p: Poly, t: Poly, pb: Poly) requires same_den(p, t), p.context == t.context, rqs_src(t, pb), ensures rqs_src(p, pb),
{ assert forall|i: int, s: Seq<u64>| #![trigger denotes(pb, i, s)] #![trigger denotes(p, i, s)] 0 <= i < ctx_n(*pb.context) implies denotes(pb, i, s) == denotes(p, i, s) by { assert(denotes(t, i, s) == denotes(p, i, s)); } }
pub proof fn lemma_src_all(p: Poly) ensures forall|t: Poly, pb: Poly| same_den(p, t) && p.context == t.context && #[trigger] rqs_src(t, pb) ==> rqs_src(p, pb),
{ assert forall|t: Poly, pb: Poly| same_den(p, t) && p.context == t.context && #[trigger] rqs_src(t, pb) implies rqs_src(p, pb) by { lemma_src(p, t, pb); } }
/// the moduli shared with the source keep their residues: what scaling by one would compute
pub proof fn lemma_rqs_common(s: RqScaler, p: Poly, i: int, k: int)
    requires rqs_wf(s), poly_wf(p), p.context == s.from, 0 <= i < s.number_common_moduli, 0 <= k < p.context.degree,
    ensures pc(p, i, k) == rqs_val(s, p, k) % cq(*s.to, i),
{
    let r = ints(pcol(p, k)); let sc = s.rns_scaler; let c = pctx(p); let q = c.moduli_64@[i] as int;
    assert forall|j: int| 0 <= j < r.len() implies 0 <= #[trigger] r[j] < sc.from.moduli_u64@[j] by { assert(p.coefficients.rows@[j]@[k] < c.moduli_64@[j]); }
    lemma_scale_accuracy(sc, r); lemma_pval(p, k); let S = dot(r, sgs(sc), r.len()); let x = scale_x(sc, r);
    assert(pval(p, k) == S % sq(sc)); assert(x % sq(sc) == S % sq(sc));
    let m = prns(p).moduli_u64@; 
    assert forall|j: int| 0 <= j < m.len() implies #[trigger] m[j] > 0 by { lemma_ctx(c, j); }
    lemma_mod_factor(m, m.len(), x, i); lemma_mod_factor(m, m.len(), S, i); 
    assert(s.from.moduli_64@[i] == s.to.moduli_64@[i]);
    assert(pc(p, i, k) == pval(p, k) % q);
}
pub proof fn lemma_rqs_den(s: RqScaler, p: Poly, r: Poly, i: int)
    requires rqs_wf(s), poly_wf(p), poly_wf(r), p.context == s.from, r.context == s.to, p.representation == Representation::PowerBasis, r.representation == Representation::PowerBasis, 0 <= i < ctx_n(*s.to),
      forall|k: int| 0 <= k < s.to.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == rqs_val(s, p, k) % cq(*s.to, i),
    ensures forall|pb: Poly| poly_wf(pb) && pb.context == p.context && pb.representation == Representation::PowerBasis && #[trigger] same_den(pb, p) ==> denotes(r, i, rqs_row(s, pb, i)),
{
    assert forall|pb: Poly| poly_wf(pb) && pb.context == p.context && pb.representation == Representation::PowerBasis && #[trigger] same_den(pb, p) implies denotes(r, i, rqs_row(s, pb, i)) by {
        lemma_same_rows(pb, p);
        let a = rqs_row(s, pb, i);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == r.coefficients.rows@[i]@[k] by { assert(pcol(pb, k) =~= pcol(p, k)) by { assert forall|j: int| 0 <= j < pcol(p, k).len() implies pcol(pb, k)[j] == pcol(p, k)[j] by { assert(pb.coefficients.rows@[j]@ == p.coefficients.rows@[j]@); } } assert(r.coefficients.rows@[i]@[k] == rqs_val(s, p, k) % cq(*s.to, i)); }
        assert(a =~= r.coefficients.rows@[i]@);
    }
}
pub proof fn lemma_same_rows(a: Poly, b: Poly)
    requires poly_wf(a), poly_wf(b), a.context == b.context, a.representation == Representation::PowerBasis, b.representation == Representation::PowerBasis, same_den(a, b),
    ensures forall|i: int| 0 <= i < ctx_n(*a.context) ==> #[trigger] a.coefficients.rows@[i]@ == b.coefficients.rows@[i]@,
{
    assert forall|i: int| 0 <= i < ctx_n(*a.context) implies #[trigger] a.coefficients.rows@[i]@ == b.coefficients.rows@[i]@ by {
        let s = a.coefficients.rows@[i]@; assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < a.context.moduli_64@[i] by { assert(a.coefficients.rows@[i]@[k] < a.context.moduli_64@[i]); }
        assert(denotes(a, i, s)); assert(denotes(b, i, s));
    }
}
pub proof fn lemma_col_seq(p: Poly, k: int) ensures forall|s: Seq<u64>| s.len() == p.coefficients.rows.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p.coefficients.rows@[i]@[k]) ==> #[trigger] ints(s) == ints(pcol(p, k)) && s == pcol(p, k),
{ assert forall|s: Seq<u64>| s.len() == p.coefficients.rows.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p.coefficients.rows@[i]@[k]) implies #[trigger] ints(s) == ints(pcol(p, k)) && s == pcol(p, k) by { assert(s =~= pcol(p, k)); } }
pub proof fn lemma_same_den_trans() ensures forall|a: Poly, b: Poly, c: Poly| same_den(a, b) && same_den(b, c) && a.context == b.context ==> #[trigger] same_den(a, b) == #[trigger] same_den(b, c) && same_den(a, c),
{ assert forall|a: Poly, b: Poly, c: Poly| same_den(a, b) && same_den(b, c) && a.context == b.context implies #[trigger] same_den(a, b) == #[trigger] same_den(b, c) && same_den(a, c) by { 
    assert forall|i: int, s: Seq<u64>| #![trigger denotes(a, i, s)] #![trigger denotes(c, i, s)] 0 <= i < ctx_n(*a.context) implies denotes(a, i, s) == denotes(c, i, s) by { assert(denotes(a, i, s) == denotes(b, i, s)); assert(denotes(b, i, s) == denotes(c, i, s)); } } }
