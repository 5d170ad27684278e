// BFV ciphertexts: well-formedness of parameters and ciphertexts.
/// components share one context, that of the ciphertext's level, and are in evaluation form
pub open spec fn bct_wf(c: BfvCipherText) -> bool {
    c.cts.len() >= 1 && c.level < c.params.q_ctxs.len() && ctx_wf(*c.params.q_ctxs@[c.level as int])
    && forall|j: int| 0 <= j < c.cts.len() ==> poly_wf(#[trigger] c.cts@[j]) && c.cts@[j].context == c.params.q_ctxs@[c.level as int] && c.cts@[j].representation == Representation::Ntt
}
pub open spec fn bctx(c: BfvCipherText) -> RqContext { *c.params.q_ctxs@[c.level as int] }
/// coefficient k of row i of component j
pub open spec fn bc(c: BfvCipherText, j: int, i: int, k: int) -> int { pc(c.cts@[j], i, k) }
pub open spec fn same_shape(a: BfvCipherText, b: BfvCipherText) -> bool { a.params == b.params && a.level == b.level && a.cts.len() == b.cts.len() }
pub open spec fn red_seq(a: Seq<u64>, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| (a[k] as int % q) as u64) }
/// a polynomial with rows v mod q_i in coefficient form denotes v mod q_i
pub proof fn lemma_red_den(p: Poly, v: Seq<u64>)
    requires poly_wf(p), p.representation == Representation::PowerBasis, v.len() == p.context.degree,
      forall|i: int, k: int| 0 <= i < ctx_n(*p.context) && 0 <= k < p.context.degree ==> #[trigger] p.coefficients.rows@[i]@[k] == v[k] as int % cq(*p.context, i),
    ensures forall|i: int| 0 <= i < ctx_n(*p.context) ==> #[trigger] denotes(p, i, red_seq(v, cq(*p.context, i))),
{
    assert forall|i: int| 0 <= i < ctx_n(*p.context) implies #[trigger] denotes(p, i, red_seq(v, cq(*p.context, i))) by {
        lemma_ctx(pctx(p), i); let q = cq(*p.context, i); let a = red_seq(v, q);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] < q && a[k] == p.coefficients.rows@[i]@[k] by { lemma_mod_range(v[k] as int, q); }
        assert(p.coefficients.rows@[i]@ =~= a);
    }
}
pub open spec fn ip_sum(cts: Seq<BfvCipherText>, ps: Seq<Poly>, j: int, i: int, k: int, n: nat) -> int decreases n { if n == 0 { 0 } else { ip_sum(cts, ps, j, i, k, (n - 1) as nat) + bc(cts[n - 1], j, i, k) * pc(ps[n - 1], i, k) } }
pub open spec fn modseq(z: Seq<int>, q: int) -> Seq<u64> { Seq::new(z.len(), |k: int| (z[k] % q) as u64) }
pub open spec fn ints_i(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] as int) }
/// the polynomial is that of the integer vector z, modulo every modulus
pub open spec fn den_int(p: Poly, z: Seq<int>) -> bool { z.len() == p.context.degree && forall|i: int| 0 <= i < ctx_n(*p.context) ==> #[trigger] denotes(p, i, modseq(z, cq(*p.context, i))) }
pub open spec fn bounded(z: Seq<int>, b: int) -> bool { forall|k: int| 0 <= k < z.len() ==> -b <= #[trigger] z[k] <= b }
/// the secret key in evaluation form
pub open spec fn is_sk(s: Poly, coeffs: Seq<i64>) -> bool { poly_wf(s) && s.representation == Representation::Ntt && den_int(s, ints_i(coeffs)) }
/// c_0 + c_1 s + ... + c_{n-1} s^{n-1} at evaluation point (i, k)
pub open spec fn phs(c: Seq<Poly>, s: Poly, i: int, k: int, n: nat) -> int decreases n { if n == 0 { 0 } else { phs(c, s, i, k, (n - 1) as nat) + pc(c[n - 1], i, k) * pow(pc(s, i, k), (n - 1) as nat) } }
pub open spec fn ph_row(c: BfvCipherText, s: Poly, i: int) -> Seq<u64> { Seq::new(bctx(c).degree as nat, |k: int| (phs(c.cts@, s, i, k, c.cts.len() as nat) % cq(bctx(c), i)) as u64) }
pub open spec fn bfv_wf(p: BfvParameters) -> bool {
    let L = p.ciphertext_moduli.len(); let t = p.plaintext_modulus_u64 as int;
    &&& 1 <= L <= 0x4000 && p.q_ctxs.len() == L && p.scalars.len() == L && p.delta_ts.len() == L && p.q_mod_ts.len() == L && p.mul_params.len() == L && p.e_ctxs.len() == L
    &&& 2 <= t < 0x4000_0000_0000_0000 && 1 <= p.variance <= 16 && distinct_primes(p.ciphertext_moduli@)
    &&& ctx_wf(*p.pt_ctx) && p.pt_ctx.moduli_64@ == p.ciphertext_moduli@.take(1) && p.pt_ctx.degree == p.degree
    &&& p.pt_ntt is Some && ntt_wf(p.pt_ntt.unwrap()) && p.pt_ntt.unwrap().p.p == t && p.pt_ntt.unwrap().size == p.degree
    &&& p.matrix_reps_index_map.len() == p.degree && forall|i: int| 0 <= i < p.degree / 2 ==> map_at(p.matrix_reps_index_map@, nlog(p.pt_ntt.unwrap()), p.degree as int, i)
    &&& forall|l: int| 0 <= l < L ==> level_wf(p, l)
}
/// auxiliary primes: distinct, 62 bits, not among the ciphertext moduli
pub open spec fn ext_ok(cm: Seq<u64>, e: Seq<u64>) -> bool { distinct_primes(e) && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) >= 0x2000_0000_0000_0000 && !cm.contains(e[i]) }
pub proof fn lemma_ext(cm: Seq<u64>, e: Seq<u64>, n: int, l: int)
    requires distinct_primes(cm), ext_ok(cm, e), 0 <= l <= cm.len(), 0 <= n <= e.len(), ensures distinct_primes(cm.take(l)), distinct_primes(cm.take(l) + e.take(n)),
{
    let a = cm.take(l); let b = e.take(n); let s = a + b;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {
        if i < l && j >= l { assert(s[j] == e[j - l]); assert(s[i] == cm[i]); assert(!cm.contains(e[j - l])); } else if i < l { assert(s[i] == cm[i] && s[j] == cm[j]); } else { assert(s[i] == e[i - l] && s[j] == e[j - l]); } }
    assert forall|i: int| 0 <= i < s.len() implies is_prime(#[trigger] s[i] as nat) && s[i] < 0x4000_0000_0000_0000 by { if i < l { assert(s[i] == cm[i]); } else { assert(s[i] == e[i - l]); } }
    assert forall|i: int| 0 <= i < a.len() implies is_prime(#[trigger] a[i] as nat) && a[i] < 0x4000_0000_0000_0000 by { assert(a[i] == cm[i]); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by { assert(a[i] == cm[i] && a[j] == cm[j]); }
}
/// the constant (-t)^-1
/// the extended basis leaves room for products
pub proof fn lemma_ext_room(a: Seq<u64>, ext: Seq<u64>, m: nat, S: nat)
    requires prodq(a, a.len()) <= pow2(S), forall|i: int| 0 <= i < ext.len() ==> #[trigger] ext[i] >= 0x2000_0000_0000_0000, m <= ext.len(), 62 * m >= S + 60, prodq(a, a.len()) >= 0,
    ensures prodq(a + ext.take(m as int), a.len() + m) * pow2(m) >= prodq(a, a.len()) * prodq(a, a.len()) * pow2(60),
{
    lemma_ext_prod(a, ext.take(m as int), m); let Q = prodq(a, a.len()); let E = prodq(a + ext.take(m as int), a.len() + m); let M = pow2(m) as int; lemma_pow2_pos(m);
    lemma_pow2_adds(61 * m, m); assert(61 * m + m == 62 * m); lemma_pow2_mono(S + 60, 62 * m); lemma_pow2_adds(S, 60); let A = pow2(61 * m) as int; let B = pow2(S) as int; let C = pow2(60) as int; lemma_pow2_pos(60);
    assert(E * M >= Q * (A * M)) by(nonlinear_arith) requires E >= Q * A, M > 0;
    assert(Q * (A * M) >= Q * (B * C)) by(nonlinear_arith) requires A * M >= B * C, Q >= 0;
    assert(Q * (B * C) >= Q * Q * C) by(nonlinear_arith) requires B >= Q, C > 0, Q >= 0;
}
proof fn lemma_ext_prod(a: Seq<u64>, e: Seq<u64>, m: nat) requires forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] >= 0x2000_0000_0000_0000, m <= e.len(), prodq(a, a.len()) >= 0, ensures prodq(a + e, a.len() + m) >= prodq(a, a.len()) * pow2(61 * m), decreases m,
{
    let s = a + e; let Q = prodq(a, a.len());
    if m == 0 { lemma_prodq_same(a, s, a.len()); lemma2_to64(); assert(pow2(61 * 0) == 1); }
    else { let h = (m - 1) as nat; lemma_ext_prod(a, e, h); lemma_pow2_adds(61 * h, 61); lemma_pow61(); let x = pow2(61 * h) as int; let y = prodq(s, a.len() + h); let q = s[a.len() + h as int] as int; assert(q == e[h as int]); let g = pow2(61) as int; assert(61 * h + 61 == 61 * m); lemma_pow2_pos(61 * h);
        assert(y * q >= (Q * x) * g) by(nonlinear_arith) requires y >= Q * x, q >= g, Q * x >= 0, g > 0 { }
        assert((Q * x) * g == Q * (x * g)) by(nonlinear_arith); }
}
proof fn lemma_pow61() ensures pow2(61) == 0x2000_0000_0000_0000 { lemma_pow60(); lemma_pow2_unfold(61); }
proof fn lemma_prodq_same(a: Seq<u64>, s: Seq<u64>, n: nat) requires n <= a.len() <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == a[i], ensures prodq(a, n) == prodq(s, n), decreases n, { if n > 0 { lemma_prodq_same(a, s, (n - 1) as nat); } }
/// a number of b bits
pub proof fn lemma_bits_step(p: int, q: int, S: nat, b: nat) requires 0 <= p <= pow2(S), 0 <= q <= pow2(b), ensures 0 <= p * q <= pow2(S + b), { lemma_pow2_adds(S, b); let x = pow2(S) as int; let y = pow2(b) as int; assert(0 <= p * q <= x * y) by(nonlinear_arith) requires 0 <= p <= x, 0 <= q <= y; }
pub proof fn lemma_delta(d: Poly, f: Poly, v: int, t: int)
    requires poly_wf(d), poly_wf(f), f.context == d.context, f.representation == Representation::Ntt,
      forall|i: int, k: int| 0 <= i < ctx_n(*d.context) && 0 <= k < d.context.degree ==> #[trigger] d.coefficients.rows@[i]@[k] == (if k < 1 { v % cq(*d.context, i) } else { 0 }),
      forall|i: int| 0 <= i < ctx_n(*d.context) ==> fwd_post(#[trigger] d.context.ntt_ops@[i], d.coefficients.rows@[i]@, f.coefficients.rows@[i]@),
      forall|i: int| 0 <= i < ctx_n(*d.context) ==> (v * -t) % #[trigger] cq(*d.context, i) == 1,
    ensures delta_wf(f, *d.context, t),
{
    let c = pctx(d);
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies (#[trigger] f.coefficients.rows@[i]@[k] * -t) % cq(c, i) == 1 && f.coefficients.rows@[i]@[k] == f.coefficients.rows@[i]@[0] by {
        lemma_ctx(c, i); let q = cq(c, i); let b = d.coefficients.rows@[i]@;
        assert(d.coefficients.rows@[i]@[0] == v % q); lemma_mod_range(v, q);
        assert forall|j: int| 1 <= j < b.len() implies #[trigger] b[j] == 0 by { assert(d.coefficients.rows@[i]@[j] == 0); }
        lemma_const_fwd(c.ntt_ops@[i], b, f.coefficients.rows@[i]@, k); lemma_const_fwd(c.ntt_ops@[i], b, f.coefficients.rows@[i]@, 0);
        lemma_cong_mul(v % q, v, -t, -t, q); }
}
pub proof fn lemma_or_pow2(r: usize, i: usize, k: nat) requires k < 60, r == pow2(k), i < r, ensures (r | i) == r + i,
{ let kk = k as usize; vstd::bits::lemma_usize_shl_is_mul(1usize, kk); lemma_pow64(); assert(r == 1usize << kk) by { assert(1 * pow2(k) == pow2(k)); } assert((r | i) == r + i) by(bit_vector) requires r == 1usize << kk, i < r, kk < 60; }
/// reversing all bits and shifting out the rest reverses the low L bits
pub proof fn lemma_rev(L: nat, n: usize, x: nat) requires 1 <= L < 61, n == pow2(L), x < n,
    ensures brv(64, x) as int / pow2((64 - L) as nat) as int == brv(L, x), brv(L, x) < n, forall|l: u32| #[trigger] has_lz(n as nat, 64, l as int) ==> l == 63 - L, brv(64, x) < pow2(64),
{
    lemma_brv_shift(L, (64 - L) as nat, x); lemma_brv_bound(L, x); lemma_pow2_pos((64 - L) as nat); lemma_div_multiples_vanish(brv(L, x) as int, pow2((64 - L) as nat) as int); lemma_brv_bound(64, x);
    assert forall|l: u32| #[trigger] has_lz(n as nat, 64, l as int) implies l == 63 - L by { if l < 63 - L { lemma_pow2_mono(L + 1, (63 - l) as nat); lemma_pow2_strict(L); } if l > 63 - L { lemma_pow2_mono((64 - l) as nat, L); } }
}
/// powers of 3 modulo 2n are odd
pub proof fn lemma_pow3(n: int, i: nat) requires n >= 2, ensures 0 < pow3(n, i as int) < 2 * n, pow3(n, i as int) % 2 == 1, pow3(n, i as int + 1) == (pow3(n, i as int) * 3) % (2 * n), decreases i,
{
    let m = 2 * n; lemma_powmod_step(3, i, m); lemma_mod_range(pow(3, i), m);
    if i == 0 { lemma_pow0(3); lemma_small_mod(1, m as nat); }
    else { lemma_pow3(n, (i - 1) as nat); let a = pow3(n, i - 1); let b = a * 3; lemma_mod_mod(b, 2, n); assert(pow3(n, i as int) == b % m); assert(pow3(n, i as int) % 2 == b % 2); }
}
/// moduli generated for the sizes: distinct primes of the requested bit size, 1 modulo 2n
pub open spec fn gm_ok(sizes: Seq<usize>, n: int, m: Seq<u64>) -> bool {
    distinct_primes(m) && m.len() <= sizes.len() && forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> gm_at(sizes[i] as nat, n, m[i] as int)
}
pub open spec fn gm_at(s: nat, n: int, q: int) -> bool { q % (2 * n) == 1 && pow2((s - 1) as nat) <= q < pow2(s) }
pub proof fn lemma_gm_push(sizes: Seq<usize>, n: int, m: Seq<u64>, p: u64)
    requires gm_ok(sizes, n, m), m.len() < sizes.len(), !m.contains(p), is_prime(p as nat), gm_at(sizes[m.len() as int] as nat, n, p as int), sizes[m.len() as int] <= 62, ensures gm_ok(sizes, n, m.push(p)),
{
    let r = m.push(p); lemma_pow64(); lemma_pow2_mono(sizes[m.len() as int] as nat, 62);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { if j == m.len() { assert(r[i] == m[i]); } }
    assert forall|i: int| 0 <= i < r.len() implies is_prime(#[trigger] r[i] as nat) && r[i] < 0x4000_0000_0000_0000 by { if i < m.len() { assert(r[i] == m[i]); } }
    assert forall|i: int| 0 <= i < r.len() implies gm_at(sizes[i] as nat, n, #[trigger] r[i] as int) by { if i < m.len() { assert(gm_at(sizes[i] as nat, n, m[i] as int)); } }
}
/// every admissible prime of at least b is among m
pub open spec fn gm_from(s: nat, n: int, m: Seq<u64>, b: int) -> bool { forall|q: u64| #[trigger] is_prime(q as nat) && gm_at(s, n, q as int) && q >= b ==> m.contains(q) }
pub open spec fn gm_all(s: nat, n: int, m: Seq<u64>) -> bool { forall|q: u64| #[trigger] is_prime(q as nat) && gm_at(s, n, q as int) ==> m.contains(q) }
/// 3^i mod 2n
pub open spec fn pow3(n: int, i: int) -> int { pow(3, i as nat) % (2 * n) }
/// positions of slot i of the first and of the second row
pub open spec fn map_at(m: Seq<usize>, L: nat, n: int, i: int) -> bool { m[i] as nat == brv(L, ((pow3(n, i) - 1) / 2) as nat) && m[n / 2 + i] as nat == brv(L, ((2 * n - pow3(n, i) - 1) / 2) as nat) }
pub open spec fn level_wf(p: BfvParameters, l: int) -> bool { lvl(p.ciphertext_moduli@, p.plaintext_modulus_u64 as int, p.degree as int, p.pt_ctx, p.q_ctxs@[l], p.scalars@[l], p.q_mod_ts@[l] as int, p.delta_ts@[l], p.e_ctxs@[l], p.mul_params@[l], l) }
pub open spec fn lvl(cm: Seq<u64>, t: int, n: int, pt_ctx: Arc<RqContext>, ca: Arc<RqContext>, sc: RqScaler, qt: int, dl: Poly, ea: Arc<RqContext>, mp: MultiplicationParameters, l: int) -> bool {
    let c = *ca; let Q = c.rns.product.v() as int;
    &&& ctx_wf(c) && c.degree == n && c.moduli_64@ == cm.take(cm.len() - l)
    &&& rqs_wf(sc) && sc.from == ca && sc.to == pt_ctx && snum(sc.rns_scaler) == t && sden(sc.rns_scaler) == Q
    &&& qt == Q % t
    &&& delta_wf(dl, c, t) && dl.context == ca
    &&& ctx_wf(*ea) && ea.degree == n && ctx_n(*ea) >= ctx_n(c) && ea.rns.product.v() * pow2((ctx_n(*ea) - ctx_n(c)) as nat) >= Q * Q * pow2(60)
    &&& mulp_wf(mp, ca, ea, t)
}
/// the constant polynomial (-t)^-1 in evaluation form
pub open spec fn delta_wf(d: Poly, c: RqContext, t: int) -> bool { poly_wf(d) && d.representation == Representation::Ntt && forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> (#[trigger] d.coefficients.rows@[i]@[k] * -t) % cq(c, i) == 1 && d.coefficients.rows@[i]@[k] == d.coefficients.rows@[i]@[0] }
pub open spec fn mulp_wf(m: MultiplicationParameters, c: Arc<RqContext>, e: Arc<RqContext>, t: int) -> bool {
    m.from == c && m.to == e && rqs_wf(m.up_scaler) && m.up_scaler.from == c && m.up_scaler.to == e && snum(m.up_scaler.rns_scaler) == 1 && sden(m.up_scaler.rns_scaler) == 1
    && rqs_wf(m.down_scalar) && m.down_scalar.from == e && m.down_scalar.to == c && snum(m.down_scalar.rns_scaler) == t && sden(m.down_scalar.rns_scaler) == c.rns.product.v()
}
/// what decryption returns for the scaled integer z
pub open spec fn dec_coeff(p: BfvParameters, z: int) -> int { let q0 = p.ciphertext_moduli@[0] as int; let t = p.plaintext_modulus_u64 as int; ((z % q0 + t) % q0) % t }
pub open spec fn dec_rel(sk: SecretKey, c: BfvCipherText, s: Poly, mb: Poly, values: Seq<u64>) -> bool {
    &&& is_sk(s, sk.coeffs@) && *s.context == bctx(c)
    &&& poly_wf(mb) && mb.representation == Representation::PowerBasis && mb.context == c.params.q_ctxs@[c.level as int]
    &&& forall|i: int| 0 <= i < ctx_n(bctx(c)) ==> fwd_post(#[trigger] bctx(c).ntt_ops@[i], mb.coefficients.rows@[i]@, ph_row(c, s, i))
    &&& values.len() == bctx(c).degree && forall|k: int| 0 <= k < values.len() ==> #[trigger] values[k] as int == dec_coeff(*c.params, rqs_val(c.params.scalars@[c.level as int], mb, k))
}
pub open spec fn enc_rel(sk: SecretKey, pt: Poly, c: BfvCipherText, s: Poly, e: Poly, z: Seq<int>) -> bool {
    &&& is_sk(s, sk.coeffs@) && s.context == pt.context
    &&& poly_wf(e) && e.context == pt.context && e.representation == Representation::Ntt && den_int(e, z) && bounded(z, 2 * sk.params.variance)
    &&& forall|i: int, k: int| 0 <= i < ctx_n(*pt.context) && 0 <= k < pt.context.degree ==> #[trigger] bc(c, 0, i, k) == (pc(e, i, k) + pc(pt, i, k) - bc(c, 1, i, k) * pc(s, i, k)) % cq(*pt.context, i)
}
pub proof fn lemma_cbd_range(r: VRng, v: nat, i: nat) requires 1 <= v <= 16, ensures -(2 * v) <= cbd_sample(r, v, i) <= 2 * v,
{ let w = cbd_words(v, i); let t = 4 * v * (i + 1); assert(t >= 0) by(nonlinear_arith) requires t == 4 * v * (i + 1); assert(64 * w <= t + 63 && 64 * w > t - 1); lemma_cbd_take(r, w, v as usize, i); }
pub proof fn lemma_small_cbd(e: Poly, r: VRng, v: nat) 
    requires poly_wf(e), 1 <= v <= 16, forall|i: int, a: Seq<u64>| 0 <= i < ctx_n(*e.context) && is_cbd(r, v, cq(*e.context, i), e.context.degree as int, a) ==> #[trigger] denotes(e, i, a),
    ensures ({ let z = Seq::new(e.context.degree as nat, |k: int| cbd_sample(r, v, k as nat)); den_int(e, z) && bounded(z, 2 * v as int) }),
{
    let z = Seq::new(e.context.degree as nat, |k: int| cbd_sample(r, v, k as nat));
    assert forall|i: int| 0 <= i < ctx_n(*e.context) implies #[trigger] denotes(e, i, modseq(z, cq(*e.context, i))) by {
        let q = cq(*e.context, i); lemma_ctx(pctx(e), i); let a = modseq(z, q);
        assert forall|k: int| 0 <= k < e.context.degree implies (#[trigger] a[k]) as int == cbd_sample(r, v, k as nat) % q by { lemma_mod_range(z[k], q); }
        assert(is_cbd(r, v, q, e.context.degree as int, a)); }
    assert forall|k: int| 0 <= k < z.len() implies -(2 * v) <= #[trigger] z[k] <= 2 * v by { lemma_cbd_range(r, v, k as nat); }
}
pub proof fn lemma_den_red(a: Poly, b: Poly, z: Seq<int>)
    requires poly_wf(a), a.representation == Representation::PowerBasis, z.len() == a.context.degree,
      forall|i: int, k: int| 0 <= i < ctx_n(*a.context) && 0 <= k < a.context.degree ==> #[trigger] a.coefficients.rows@[i]@[k] == z[k] % cq(*a.context, i),
      b.context == a.context, same_den(a, b),
    ensures den_int(b, z), den_int(a, z),
{
    assert forall|i: int| 0 <= i < ctx_n(*a.context) implies #[trigger] denotes(a, i, modseq(z, cq(*a.context, i))) && denotes(b, i, modseq(z, cq(*a.context, i))) by {
        let q = cq(*a.context, i); lemma_ctx(pctx(a), i); let s = modseq(z, q);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < q && s[k] == a.coefficients.rows@[i]@[k] by { lemma_mod_range(z[k], q); }
        assert(a.coefficients.rows@[i]@ =~= s); }
}
pub proof fn lemma_sk(a: Poly, b: Poly, c: Seq<i64>)
    requires poly_wf(a), a.representation == Representation::PowerBasis, c.len() == a.context.degree,
      forall|i: int, k: int| 0 <= i < ctx_n(*a.context) && 0 <= k < a.context.degree ==> #[trigger] a.coefficients.rows@[i]@[k] == (if k < c.len() { c[k] as int % cq(*a.context, i) } else { 0 }),
      b.context == a.context, poly_wf(b), b.representation == Representation::Ntt, same_den(a, b),
    ensures is_sk(b, c),
{
    let z = ints_i(c);
    assert forall|i: int, k: int| 0 <= i < ctx_n(*a.context) && 0 <= k < a.context.degree implies #[trigger] a.coefficients.rows@[i]@[k] == z[k] % cq(*a.context, i) by { assert(z[k] == c[k]); }
    lemma_den_red(a, b, z);
}
pub open spec fn phase2(s: Poly, c0: Poly, c1: Poly, r: Poly) -> bool { forall|i: int, k: int| 0 <= i < ctx_n(*c0.context) && 0 <= k < c0.context.degree ==> #[trigger] pc(r, i, k) == (pc(c0, i, k) + pc(c1, i, k) * pc(s, i, k)) % cq(*c0.context, i) }
pub proof fn lemma_bwd_fwd(o: NttOperator, r: Seq<u64>, b: Seq<u64>) requires ntt_wf(o), r.len() == o.size, bwd_post(o, r, b), forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < o.p.p, ensures fwd_post(o, b, r),
{ assert forall|t: int| 0 <= t < o.size implies (#[trigger] r[t]) < o.p.p && r[t] as int == bev(ints(b), 0, o.size as nat, npt(o, t)) % (o.p.p as int) by { let x = npt(o, t); lemma_small_mod(r[t] as nat, o.p.p as nat); } }
pub proof fn lemma_level0(p: BfvParameters, l: int) requires bfv_wf(p), 0 <= l < p.q_ctxs.len(), ensures level_wf(p, l), p.ciphertext_moduli@[0] == cq(*p.q_ctxs@[l], 0), cq(*p.pt_ctx, 0) == p.ciphertext_moduli@[0], mod_wf(p.q_ctxs@[l].moduli@[0]), p.q_ctxs@[l].moduli@[0].p == p.ciphertext_moduli@[0],
  ctx_n(*p.pt_ctx) == 1, 2 <= p.ciphertext_moduli@[0] < 0x4000_0000_0000_0000,
{ assert(level_wf(p, l)); let c = *p.q_ctxs@[l]; assert(c.moduli_64@[0] == p.ciphertext_moduli@.take(p.ciphertext_moduli.len() - l)[0]); lemma_ctx(c, 0); assert(p.pt_ctx.moduli_64@[0] == p.ciphertext_moduli@.take(1)[0]); }
