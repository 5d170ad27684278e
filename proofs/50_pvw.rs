// PVW encryption of bits: shapes, phases, the decision rule and the round trip.
pub open spec fn min_spec(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn dotp(s: Seq<u64>, a: Seq<u64>, n: nat) -> int decreases n { if n == 0 { 0 } else { dotp(s, a, (n - 1) as nat) + s[n - 1] * a[n - 1] } }
pub open spec fn psum_b(pk: Seq<PvwCiphertext>, e: Seq<u64>, l: int, m: nat) -> int decreases m { if m == 0 { 0 } else { psum_b(pk, e, l, (m - 1) as nat) + pk[m - 1].b@[l] * e[m - 1] } }
pub open spec fn psum_a(pk: Seq<PvwCiphertext>, e: Seq<u64>, j: int, m: nat) -> int decreases m { if m == 0 { 0 } else { psum_a(pk, e, j, (m - 1) as nat) + pk[m - 1].a@[j] * e[m - 1] } }
pub open spec fn pvw_sk_wf(sk: PvwSk, p: PvwParams) -> bool { sk.f0.len() == p.ell && forall|l: int| 0 <= l < p.ell ==> (#[trigger] sk.f0@[l])@.len() == p.n && (forall|j: int| 0 <= j < p.n ==> #[trigger] sk.f0@[l]@[j] < p.q) }
pub open spec fn pvw_ct_wf(c: PvwCiphertext, p: PvwParams) -> bool { c.b.len() == p.ell && c.a.len() == p.n && (forall|l: int| 0 <= l < p.ell ==> #[trigger] c.b@[l] < p.q) && (forall|j: int| 0 <= j < p.n ==> #[trigger] c.a@[j] < p.q) }
pub open spec fn pvw_pk_wf(pk: PvwPk, p: PvwParams) -> bool { pk.f0.len() == p.m && forall|i: int| 0 <= i < p.m ==> pvw_ct_wf(#[trigger] pk.f0@[i], p) }
/// every row of the public key is <a_i, s_l> + e_il with a small sampled e_il
pub open spec fn pvw_pk_err(pk: PvwPk, sk: PvwSk, p: PvwParams, err: spec_fn(int, int) -> int) -> bool {
    forall|i: int, l: int| 0 <= i < p.m && 0 <= l < p.ell ==> #[trigger] pk.f0@[i].b@[l] as int == (dotp(sk.f0@[l]@, pk.f0@[i].a@, p.n as nat) + err(i, l)) % (p.q as int) && -2 * p.variance <= err(i, l) <= 2 * p.variance }
pub open spec fn pvw_phase(sk: PvwSk, p: PvwParams, c: PvwCiphertext, l: int) -> int { (c.b@[l] - dotp(sk.f0@[l]@, c.a@, p.n as nat)) % (p.q as int) }
pub open spec fn pvw_bit(q: int, ph: int) -> int { ((ph + q / 4) / (q / 2)) % 2 }
/// subset sum of the public key rows, plus (q/2) m
pub open spec fn pvw_enc(pk: PvwPk, p: PvwParams, m: Seq<u64>, e: Seq<u64>, c: PvwCiphertext) -> bool {
    e.len() == p.m && (forall|i: int| 0 <= i < p.m ==> #[trigger] e[i] < 2)
    && (forall|j: int| 0 <= j < p.n ==> #[trigger] c.a@[j] as int == psum_a(pk.f0@, e, j, p.m as nat) % (p.q as int))
    && (forall|l: int| 0 <= l < p.ell ==> #[trigger] c.b@[l] as int == (psum_b(pk.f0@, e, l, p.m as nat) + (if l < m.len() { (p.q as int / 2) * m[l] } else { 0 })) % (p.q as int))
}
pub proof fn lemma_mod_add2(x: int, y: int, q: int) requires q > 0, ensures (x % q + y % q) % q == (x + y) % q, { lemma_add_mod_noop(x, y, q); }
pub proof fn lemma_mod_sub2(x: int, y: int, q: int) requires q > 0, ensures (x - y % q) % q == (x - y) % q, (x % q - y % q) % q == (x - y) % q, { lemma_sub_mod_noop(x, y, q); lemma_sub_mod_noop_right(x, y, q); }
pub proof fn lemma_dot_step(s: Seq<u64>, a: Seq<u64>, n: nat, pr: int, q: int) requires q > 0, n < s.len(), n < a.len(), pr == (s[n as int] * a[n as int]) % q,
    ensures (dotp(s, a, n) % q + pr) % q == dotp(s, a, n + 1) % q, { lemma_mod_add2(dotp(s, a, n), s[n as int] * a[n as int], q); }
/// the decision rule: a phase (q/2) m + d with -q/4 <= d < q/2 - q/4 decodes to m
pub proof fn lemma_pvw_decide(q: int, m: int, d: int, ph: int)
    requires q >= 2, 0 <= m < 2, -(q / 4) <= d < q / 2 - q / 4, ph == ((q / 2) * m + d) % q,
    ensures pvw_bit(q, ph) == m,
{
    let h = q / 2; let r = q / 4; let x = h * m + d;
    assert(h >= 1 && 0 <= r <= h && (q == 2 * h || q == 2 * h + 1));
    if m == 0 { assert(h * m == 0); } else { assert(h * m == h); }
    if x < 0 { assert(m == 0); lemma_fundamental_div_mod_converse(x, q, -1, x + q); assert(ph == x + q); 
        assert(2 * h <= ph + r < 3 * h);
        lemma_fundamental_div_mod_converse(ph + r, h, 2, ph + r - 2 * h); 
    } else { lemma_small_mod(x as nat, q as nat); assert(ph == x);
        if m == 0 { lemma_fundamental_div_mod_converse(ph + r, h, 0, ph + r); } else { assert(h <= ph + r < 2 * h); lemma_fundamental_div_mod_converse(ph + r, h, 1, ph + r - h); } }
}
pub open spec fn esum(e: Seq<u64>, err: spec_fn(int, int) -> int, l: int, m: nat) -> int decreases m { if m == 0 { 0 } else { esum(e, err, l, (m - 1) as nat) + e[m - 1] * err(m - 1, l) } }
/// <s, sum_i e_i a_i> as a sum over rows
spec fn asum(s: Seq<u64>, pk: Seq<PvwCiphertext>, e: Seq<u64>, n: nat, m: nat) -> int decreases n { if n == 0 { 0 } else { asum(s, pk, e, (n - 1) as nat, m) + s[n - 1] * psum_a(pk, e, n - 1, m) } }
proof fn lemma_asum_step(s: Seq<u64>, pk: Seq<PvwCiphertext>, e: Seq<u64>, n: nat, m: nat)
    requires n <= s.len(), ensures asum(s, pk, e, n, m + 1) == asum(s, pk, e, n, m) + dotp(s, pk[m as int].a@, n) * e[m as int], decreases n
{ if n > 0 { lemma_asum_step(s, pk, e, (n - 1) as nat, m);
    let a = asum(s, pk, e, (n - 1) as nat, m); let d = dotp(s, pk[m as int].a@, (n - 1) as nat); let x = s[n - 1] as int; let y = pk[m as int].a@[n - 1] as int; let z = e[m as int] as int; let w = psum_a(pk, e, n - 1, m);
    assert(a + d * z + x * (w + y * z) == a + x * w + (d + x * y) * z) by(nonlinear_arith); } else { assert(0 * (e[m as int] as int) == 0); } }
proof fn lemma_asum_zero(s: Seq<u64>, pk: Seq<PvwCiphertext>, e: Seq<u64>, n: nat) ensures asum(s, pk, e, n, 0) == 0, decreases n { if n > 0 { lemma_asum_zero(s, pk, e, (n - 1) as nat); assert(s[n - 1] * 0int == 0); } }
proof fn lemma_asum_cong(s: Seq<u64>, a: Seq<u64>, pk: Seq<PvwCiphertext>, e: Seq<u64>, n: nat, m: nat, q: int)
    requires q > 0, forall|j: int| 0 <= j < n ==> #[trigger] a[j] as int == psum_a(pk, e, j, m) % q, ensures cong(dotp(s, a, n), asum(s, pk, e, n, m), q), decreases n
{ if n > 0 { lemma_asum_cong(s, a, pk, e, (n - 1) as nat, m, q); let k = n - 1; let w = psum_a(pk, e, k, m); assert(a[k] as int == w % q); lemma_mod_twice(w, q);
    lemma_cong_mul(s[k] as int, s[k] as int, a[k] as int, w, q); lemma_cong_add(dotp(s, a, k as nat), asum(s, pk, e, k as nat, m), s[k] * a[k], s[k] * w, q); } }
proof fn lemma_pvw_rows(pk: PvwPk, sk: PvwSk, p: PvwParams, err: spec_fn(int, int) -> int, e: Seq<u64>, l: int, m: nat)
    requires p.q >= 2, pvw_sk_wf(sk, p), pvw_pk_err(pk, sk, p, err), 0 <= l < p.ell, m <= p.m, e.len() == p.m,
    ensures cong(psum_b(pk.f0@, e, l, m), asum(sk.f0@[l]@, pk.f0@, e, p.n as nat, m) + esum(e, err, l, m), p.q as int), decreases m
{
    let q = p.q as int; let s = sk.f0@[l]@;
    if m == 0 { lemma_asum_zero(s, pk.f0@, e, p.n as nat); } else { let k = (m - 1) as nat; let i = m - 1;
        lemma_pvw_rows(pk, sk, p, err, e, l, k); assert(s.len() == p.n); lemma_asum_step(s, pk.f0@, e, p.n as nat, k);
        let d = dotp(s, pk.f0@[i].a@, p.n as nat); let r = err(i, l); let z = e[i] as int; let b = pk.f0@[i].b@[l] as int;
        lemma_mod_twice(d + r, q); lemma_cong_mul(b, d + r, z, z, q); assert((d + r) * z == d * z + z * r) by(nonlinear_arith);
        lemma_cong_add(psum_b(pk.f0@, e, l, k), asum(s, pk.f0@, e, p.n as nat, k) + esum(e, err, l, k), b * z, (d + r) * z, q); }
}
/// decrypting an encryption under the matching key returns the bits while the summed error stays within the threshold
pub proof fn lemma_pvw_roundtrip(pk: PvwPk, sk: PvwSk, p: PvwParams, err: spec_fn(int, int) -> int, m: Seq<u64>, e: Seq<u64>, c: PvwCiphertext, l: int)
    requires p.q >= 2, pvw_sk_wf(sk, p), pvw_pk_err(pk, sk, p, err), pvw_enc(pk, p, m, e, c), 0 <= l < p.ell, l < m.len(), m[l] < 2,
      -(p.q as int / 4) <= esum(e, err, l, p.m as nat) < p.q as int / 2 - p.q as int / 4,
    ensures pvw_bit(p.q as int, pvw_phase(sk, p, c, l)) == m[l],
{
    let q = p.q as int; let s = sk.f0@[l]@; let n = p.n as nat; let M = p.m as nat; let g = (q / 2) * m[l]; let A = asum(s, pk.f0@, e, n, M); let E = esum(e, err, l, M); let B = psum_b(pk.f0@, e, l, M);
    lemma_pvw_rows(pk, sk, p, err, e, l, M); lemma_asum_cong(s, c.a@, pk.f0@, e, n, M, q);
    let b = c.b@[l] as int; let D = dotp(s, c.a@, n);
    assert(b == (B + g) % q); lemma_mod_twice(B + g, q); lemma_cong_add(B, A + E, g, g, q);
    lemma_cong_sub(b, A + E + g, D, A, q);
    assert(A + E + g - A == g + E);
    lemma_pvw_decide(q, m[l] as int, E, pvw_phase(sk, p, c, l));
}
/// the summed error is within 2 * variance * m, so parameters with 2 v m below the threshold never fail
pub proof fn lemma_esum_bound(e: Seq<u64>, err: spec_fn(int, int) -> int, l: int, m: nat, v: int)
    requires v >= 0, m <= e.len(), forall|i: int| 0 <= i < m ==> #[trigger] e[i] < 2, forall|i: int| 0 <= i < m ==> -2 * v <= #[trigger] err(i, l) <= 2 * v,
    ensures -2 * v * m <= esum(e, err, l, m) <= 2 * v * m, decreases m
{ if m > 0 { lemma_esum_bound(e, err, l, (m - 1) as nat, v); let z = e[m - 1] as int; let r = err(m - 1, l); assert(e[m - 1] < 2);
    if z == 0 { assert(z * r == 0); } else { assert(z * r == r); } assert(2 * v * m == 2 * v * (m - 1) + 2 * v) by(nonlinear_arith); assert(-2 * v * m == -2 * v * (m - 1) - 2 * v) by(nonlinear_arith); } }
