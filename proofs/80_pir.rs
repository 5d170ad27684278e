// Expanding a packed ciphertext.
/// X^{-2^i} = -X^{n - 2^i}
pub open spec fn xpow(n: nat, i: nat) -> Seq<int> { Seq::new(n, |k: int| if k == n - pow2(i) { -1int } else { 0 }) }
/// exponent of the automorphism used at depth i
pub open spec fn ek(n: int, i: nat) -> int { n / (pow2(i) as int) + 1 }
pub open spec fn gal_at(g: GaliosKey, p: Arc<BfvParameters>, e: int) -> bool { gal_wf(g) && g.gk.params == p && g.galios_level == 0 && g.substitution.exponent == e }
pub open spec fn eval_wf(ev: Evaluation, p: Arc<BfvParameters>) -> bool {
    &&& (forall|k: usize| #[trigger] ev.gk.m().dom().contains(k) ==> gal_at(ev.gk.m()[k], p, k as int))
    &&& (forall|i: nat| i < clog(*p.q_ctxs@[0]) ==> ev.gk.m().dom().contains((#[trigger] ek(p.degree as int, i)) as usize))
}
/// a two-component ciphertext at level 0
pub open spec fn ct2(c: BfvCipherText, p: Arc<BfvParameters>) -> bool { bct_wf(c) && c.params == p && c.level == 0 && c.cts.len() == 2 }
/// r is z modulo every modulus, whatever its evaluation form
pub open spec fn xp_ok(x: Poly, c: Arc<RqContext>, i: nat) -> bool { row_wf(x, c) && den_int(x, xpow(c.degree as nat, i)) }
/// even = c + cr, odd = (c - cr) x, component by component
pub open spec fn split(c: BfvCipherText, cr: BfvCipherText, x: Poly, even: BfvCipherText, odd: BfvCipherText) -> bool {
    let r = bctx(c);
    &&& (forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(r) && 0 <= k < r.degree ==> #[trigger] bc(even, j, i, k) == (bc(c, j, i, k) + bc(cr, j, i, k)) % cq(r, i))
    &&& (forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(r) && 0 <= k < r.degree ==> #[trigger] bc(odd, j, i, k) == (((bc(c, j, i, k) - bc(cr, j, i, k)) % cq(r, i)) * pc(x, i, k)) % cq(r, i))
}
/// one node of the expansion tree at depth i
pub open spec fn node(ev: Evaluation, p: Arc<BfvParameters>, c: BfvCipherText, even: BfvCipherText, odd: BfvCipherText, i: nat) -> bool {
    exists|g: GaliosKey, cr: BfvCipherText, d: Poly, r0: Poly, x: Poly| #[trigger] node_of(ev, p, c, even, odd, i, g, cr, d, r0, x)
}
pub open spec fn node_of(ev: Evaluation, p: Arc<BfvParameters>, c: BfvCipherText, even: BfvCipherText, odd: BfvCipherText, i: nat, g: GaliosKey, cr: BfvCipherText, d: Poly, r0: Poly, x: Poly) -> bool {
    let e = ek(p.degree as int, i);
    &&& 0 <= e < 0x1_0000_0000_0000_0000 && ev.gk.m().dom().contains(e as usize) && g == ev.gk.m()[e as usize] && gal_at(g, p, e)
    &&& ct2(cr, p) && gal_out(g, c, cr, d, r0) && xp_ok(x, p.q_ctxs@[0], i) && split(c, cr, x, even, odd)
}
pub open spec fn tnode(ev: Evaluation, p: Arc<BfvParameters>, tr: Seq<Seq<BfvCipherText>>, i: int, j: int) -> bool { node(ev, p, tr[i][j], tr[i + 1][j], tr[i + 1][j + pow2(i as nat)], i as nat) }
/// tr[i][j]: the j-th ciphertext after i levels
pub open spec fn unpack_rel(ev: Evaluation, ct: BfvCipherText, r: Seq<BfvCipherText>, tr: Seq<Seq<BfvCipherText>>, ninv: int) -> bool {
    let p = ct.params; let c = bctx(ct); let n = p.degree as int; let L = clog(c);
    &&& tr.len() == L + 1 && tr[L as int] == r && 0 <= ninv && (ninv * n) % (c.rns.product.v() as int) == 1
    &&& (forall|i: int| 0 <= i <= L ==> (#[trigger] tr[i]).len() == n)
    &&& (forall|i: int, j: int| 0 <= i <= L && 0 <= j < n ==> ct2(#[trigger] tr[i][j], p))
    &&& (forall|j: int, i: int, k: int| 0 <= j < 2 && 0 <= i < ctx_n(c) && 0 <= k < c.degree ==> #[trigger] bc(tr[0][0], j, i, k) == (bc(ct, j, i, k) * ninv) % cq(c, i))
    &&& (forall|i: int, j: int| 0 <= i < L && 0 <= j < pow2(i as nat) ==> #[trigger] tnode(ev, p, tr, i, j))
}
pub proof fn lemma_ilog(L: nat, n: usize, l: nat) requires n == pow2(L), pow2(l) <= n < pow2(l + 1), ensures l == L,
{ if l > L { lemma_pow2_mono(L + 1, l); lemma_pow2_strict2(L, L + 1); } if l < L { lemma_pow2_mono(l + 1, L); } }
pub proof fn lemma_pow2_strict2(a: nat, b: nat) requires a < b, ensures 1 <= pow2(a) < pow2(b), { lemma_pow2_pos(a); lemma_pow2_strictly_increases(a, b); }
pub proof fn lemma_pow_pow2(i: nat) ensures pow(2, i) == pow2(i), { reveal(pow2); lemma_pow2(i); }
pub proof fn lemma_xpow_den(x: Poly, coeffs: Seq<u64>, i: nat, n: nat)
    requires poly_wf(x), x.representation == Representation::PowerBasis, n == x.context.degree, coeffs.len() == n, 1 <= pow2(i) <= n, forall|k: int| 0 <= k < n ==> #[trigger] coeffs[k] == (if k == n - pow2(i) { 1u64 } else { 0u64 }),
      forall|j: int, k: int| 0 <= j < ctx_n(*x.context) && 0 <= k < x.context.degree ==> #[trigger] x.coefficients.rows@[j]@[k] == (-(coeffs[k] as int % cq(*x.context, j))) % cq(*x.context, j),
    ensures den_int(x, xpow(n, i)),
{
    let z = xpow(n, i); let c = pctx(x);
    assert forall|j: int, k: int| 0 <= j < ctx_n(c) && 0 <= k < c.degree implies #[trigger] x.coefficients.rows@[j]@[k] == z[k] % cq(c, j) by { lemma_ctx(c, j); let q = cq(c, j); lemma_small_mod(0, q as nat); lemma_small_mod(1, q as nat); assert(coeffs[k] == (if k == n - pow2(i) { 1u64 } else { 0u64 })); }
    lemma_den_red(x, x, z);
}
pub proof fn lemma_prod2(c: RqContext) requires ctx_wf(c), ensures c.rns.product.v() > 1,
{ let s = c.rns.moduli_u64@; lemma_ctx(c, 0); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); } lemma_prodq_pos(s, s.len()); let q = cq(c, 0); let P = c.rns.product.v() as int; lemma_qdiv(c, 0); let w = P / q; assert(P > 1) by(nonlinear_arith) requires P == w * q, P > 0, q > 1; }
pub proof fn lemma_shl1(i: nat, L: nat) requires i < L, L < 61, ensures (1usize << (i as usize)) == pow2(i), (1int * pow2(i)) % (pow2(64) as int) == pow2(i), 2 * pow2(i) <= pow2(L),
{ lemma_pow64(); lemma_pow2_strict2(i, 64); lemma_small_mod(pow2(i), pow2(64)); vstd::bits::lemma_usize_shl_is_mul(1usize, i as usize); lemma_pow2_unfold((i + 1) as nat); lemma_pow2_mono((i + 1) as nat, L); }
pub proof fn lemma_ek(n: int, i: nat, L: nat) requires n == pow2(L), i < L, L < 61, ensures ek(n, i) == pow2((L - i) as nat) + 1, 0 <= ek(n, i) <= n + 1,
{ lemma_pow2_adds(i, (L - i) as nat); lemma_pow2_pos(i); let x = pow2((L - i) as nat) as int; let y = pow2(i) as int; assert(x * y == y * x) by(nonlinear_arith); lemma_div_split(x, 0, y); lemma_basic_div(0, y); lemma_pow2_mono((L - i) as nat, L); }
// ------------------------------------------------------------------ queries
pub open spec fn onehot(d: nat, x: int) -> Seq<u64> { Seq::new(d, |k: int| if k == x { 1u64 } else { 0u64 }) }
/// the one-hot vectors of coordinates 1 .. a, concatenated
pub open spec fn hots(q: Seq<usize>, d: nat, a: nat) -> Seq<u64> decreases a { if a <= 1 { Seq::empty() } else { hots(q, d, (a - 1) as nat) + onehot(d, q[a - 1] as int) } }
pub proof fn lemma_hots(q: Seq<usize>, d: nat, a: nat) requires a >= 1, ensures hots(q, d, a).len() == d * (a - 1), decreases a,
{ if a > 1 { lemma_hots(q, d, (a - 1) as nat); assert(d * (a - 1) == d * (a - 2) + d) by(nonlinear_arith); } else { assert(d * 0 == 0); } }
/// a vector padded with zeros
pub open spec fn zpad(v: Seq<u64>, n: nat) -> Seq<int> { Seq::new(n, |k: int| if k < v.len() { v[k] as int } else { 0 }) }
pub proof fn lemma_zpad(a: Poly, b: Poly, v: Seq<u64>)
    requires poly_wf(a), a.representation == Representation::PowerBasis, b.context == a.context, same_den(a, b), v.len() <= a.context.degree,
      forall|i: int, k: int| 0 <= i < ctx_n(*a.context) && 0 <= k < a.context.degree ==> #[trigger] a.coefficients.rows@[i]@[k] == (if k < v.len() { v[k] as int % cq(*a.context, i) } else { 0 }),
    ensures den_int(b, zpad(v, a.context.degree as nat)),
{
    let c = pctx(a); let z = zpad(v, c.degree as nat);
    assert forall|i: int, k: int| 0 <= i < ctx_n(c) && 0 <= k < c.degree implies #[trigger] a.coefficients.rows@[i]@[k] == z[k] % cq(c, i) by { lemma_ctx(c, i); lemma_small_mod(0, cq(c, i) as nat); }
    lemma_den_red(a, b, z);
}
// ------------------------------------------------------------------ evaluation keys
/// every key switches, from the substituted secret, to the secret with coefficients cf, with errors at most b
pub open spec fn eval_enc(ev: Evaluation, p: Arc<BfvParameters>, cf: Seq<i64>, b: int) -> bool {
    forall|k: usize| #[trigger] ev.gk.m().dom().contains(k) ==> gal_any(ev.gk.m()[k], cf, b)
}
pub open spec fn gal_any(g: GaliosKey, cf: Seq<i64>, b: int) -> bool { exists|s: Poly, ss: Poly, zs: Seq<Seq<int>>| #[trigger] gal_enc(g, s, ss, cf, zs, b) }
/// the RGSW encryption of the secret itself
pub open spec fn rgsw_sk(r: RgswCt, s: Poly, sm: Poly, m: Poly, cf: Seq<i64>, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>, b: int) -> bool { rgsw_enc(r, s, sm, m, cf, z0, z1, b) && is_sk(m, cf) }
pub open spec fn eval_sk(ev: Evaluation, p: Arc<BfvParameters>, cf: Seq<i64>, b: int) -> bool {
    rgsw_wf(ev.sk_rgsw) && ev.sk_rgsw.ksk0.ct_context == p.q_ctxs@[0] && exists|s: Poly, sm: Poly, m: Poly, z0: Seq<Seq<int>>, z1: Seq<Seq<int>>| #[trigger] rgsw_sk(ev.sk_rgsw, s, sm, m, cf, z0, z1, b)
}
