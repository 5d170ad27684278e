// Substitution X -> X^e in Z_q[X]/(X^N + 1), N a power of two, e odd.
pub open spec fn sub_st(a: Seq<int>, e: int, n: int, j: nat) -> Seq<int> decreases j {
    if j == 0 { Seq::new(n as nat, |k: int| 0int) } else { let m = (j - 1) * e; sub_st(a, e, n, (j - 1) as nat).update(m % n, if (m / n) % 2 == 1 { -a[j - 1] } else { a[j - 1] }) }
}
/// the coefficients of a(X^e) mod X^n + 1
pub open spec fn nsubst(a: Seq<int>, e: int) -> Seq<int> { sub_st(a, e, a.len() as int, a.len()) }
pub proof fn lemma_pow2_odd_factor(k: nat, d: int, e: int) requires e % 2 == 1, (d * e) % (pow2(k) as int) == 0, ensures d % (pow2(k) as int) == 0, decreases k,
{
    lemma_pow2_pos(k);
    if k == 0 { lemma_pow64(); assert(d % 1 == 0); }
    else {
        let h = (k - 1) as nat; lemma_pow2_unfold(k); lemma_pow2_pos(h); let P = pow2(h) as int;
        lemma_small_mod(0, pow2(k)); let c = lemma_cong_elim(d * e, 0, pow2(k) as int);
        assert(d * e == 2 * (c * P)) by(nonlinear_arith) requires d * e == 0 + c * (2 * P);
        if d % 2 == 1 { let d2 = d / 2; let e2 = e / 2; assert((2 * d2 + 1) * (2 * e2 + 1) == 2 * (2 * d2 * e2 + d2 + e2) + 1) by(nonlinear_arith); assert(false); }
        let f = d / 2; assert(f * e == c * P) by(nonlinear_arith) requires d * e == 2 * (c * P), d == 2 * f;
        lemma_small_mod(0, P as nat); lemma_cong_intro(f * e, 0, c, P); lemma_pow2_odd_factor(h, f, e);
        let g = lemma_cong_elim(f, 0, P); assert(d == 0 + g * (2 * P)) by(nonlinear_arith) requires d == 2 * f, f == 0 + g * P;
        lemma_cong_intro(d, 0, g, pow2(k) as int);
    }
}
/// j -> j e mod n is injective below n
pub proof fn lemma_sub_inj(k: nat, i: int, j: int, e: int) requires e % 2 == 1, 0 <= i < pow2(k), 0 <= j < pow2(k), (i * e) % (pow2(k) as int) == (j * e) % (pow2(k) as int), ensures i == j,
{
    let n = pow2(k) as int; let c = lemma_cong_elim(i * e, j * e, n); assert((i - j) * e == 0 + c * n) by(nonlinear_arith) requires i * e == j * e + c * n;
    lemma_small_mod(0, n as nat); lemma_cong_intro((i - j) * e, 0, c, n); lemma_pow2_odd_factor(k, i - j, e); let g = lemma_cong_elim(i - j, 0, n);
    assert(g == 0) by(nonlinear_arith) requires i - j == 0 + g * n, -n < i - j < n, n > 0;
    assert(0 * n == 0);
}
/// slots not yet reached are zero
pub proof fn lemma_sub_zero(a: Seq<int>, e: int, k: nat, j: nat, m: int)
    requires e % 2 == 1, e > 0, j <= pow2(k), 0 <= m < pow2(k), forall|i: int| 0 <= i < j ==> m != #[trigger] (i * e) % (pow2(k) as int), 
    ensures sub_st(a, e, pow2(k) as int, j).len() == pow2(k), sub_st(a, e, pow2(k) as int, j)[m] == 0, decreases j,
{ if j > 0 { lemma_sub_zero(a, e, k, (j - 1) as nat, m); let i = j - 1; assert(m != (i * e) % (pow2(k) as int)); lemma_mod_range(i * e, pow2(k) as int); } }
pub proof fn lemma_sub_len(a: Seq<int>, e: int, n: int, j: nat) requires n > 0, ensures sub_st(a, e, n, j).len() == n, decreases j, { if j > 0 { lemma_sub_len(a, e, n, (j - 1) as nat); lemma_mod_range((j - 1) * e, n); } }
pub proof fn lemma_sub_step(a: Seq<int>, e: int, k: nat, j: nat)
    requires e % 2 == 1, e > 0, j < pow2(k),
    ensures ({ let n = pow2(k) as int; let m = (j * e) % n; let s = sub_st(a, e, n, j); s.len() == n && 0 <= m < n && s[m] == 0 && sub_st(a, e, n, j + 1) == s.update(m, if ((j * e) / n) % 2 == 1 { -a[j as int] } else { a[j as int] }) }),
{
    let n = pow2(k) as int; let m = (j * e) % n; lemma_pow2_pos(k); lemma_mod_range(j * e, n);
    assert forall|i: int| 0 <= i < j implies m != #[trigger] (i * e) % n by { if m == (i * e) % n { lemma_sub_inj(k, i, j as int, e); } }
    lemma_sub_zero(a, e, k, j, m);
}
/// coefficient j goes to place j e mod n, negated once for every wrap
pub proof fn lemma_nsubst_at(a: Seq<int>, e: int, k: nat, up: nat, j: int)
    requires e % 2 == 1, e > 0, 0 <= j < up <= pow2(k),
    ensures ({ let n = pow2(k) as int; sub_st(a, e, n, up)[(j * e) % n] == (if ((j * e) / n) % 2 == 1 { -a[j] } else { a[j] }) }), decreases up,
{
    let n = pow2(k) as int; lemma_pow2_pos(k); lemma_sub_step(a, e, k, (up - 1) as nat); lemma_mod_range(j * e, n);
    if j < up - 1 { lemma_nsubst_at(a, e, k, (up - 1) as nat, j); if (j * e) % n == ((up - 1) * e) % n { lemma_sub_inj(k, j, up - 1, e); } }
}
pub proof fn lemma_bev_update(s: Seq<int>, n: nat, m: int, v: int, x: int) requires n <= s.len(), 0 <= m < s.len(), ensures bev(s.update(m, v), 0, n, x) == bev(s, 0, n, x) + (if m < n { (v - s[m]) * pow(x, m as nat) } else { 0 }), decreases n,
{
    if n > 0 { let h = (n - 1) as nat; lemma_bev_update(s, h, m, v, x); let y = pow(x, h); 
      if h == m { assert((v - s[m]) * y == v * y - s[m] * y) by(nonlinear_arith); } }
}
pub proof fn lemma_pow_split(x: int, e: nat, n: nat, p: int) requires p > 0, n > 0, cong(pow(x, n), -1, p), ensures cong(pow(x, e), (if (e / n) % 2 == 1 { -pow(x, e % n) } else { pow(x, e % n) }), p), decreases e,
{
    if e < n { lemma_small_mod(e, n); lemma_basic_div(e as int, n as int); }
    else {
        let f = (e - n) as nat; lemma_pow_split(x, f, n, p); lemma_pow_adds(x, n, f);
        lemma_mod_add_multiples_vanish(f as int, n as int); assert(e % n == f % n);
        lemma_div_plus_one(f as int, n as int); assert(e / n == f / n + 1);
        let y = pow(x, e % n); let z = if (f / n) % 2 == 1 { -y } else { y };
        lemma_cong_mul(pow(x, n), -1, pow(x, f), z, p); assert(-1 * z == -z);
    }
}
/// evaluating the substituted polynomial at x is evaluating the polynomial at x^e
pub proof fn lemma_sub_eval(a: Seq<int>, e: int, k: nat, j: nat, x: int, p: int)
    requires p > 0, e % 2 == 1, e > 0, j <= pow2(k), j <= a.len(), cong(pow(x, pow2(k)), -1, p),
    ensures cong(bev(sub_st(a, e, pow2(k) as int, j), 0, pow2(k), x), bev(a, 0, j, pow(x, e as nat)), p), decreases j,
{
    let n = pow2(k); lemma_pow2_pos(k);
    if j == 0 { lemma_bev_zero(sub_st(a, e, n as int, 0), n, x); }
    else {
        let h = (j - 1) as nat; lemma_sub_eval(a, e, k, h, x, p); lemma_sub_step(a, e, k, h);
        let s = sub_st(a, e, n as int, h); let m = (h * e) % (n as int); let v = if ((h * e) / (n as int)) % 2 == 1 { -a[h as int] } else { a[h as int] };
        lemma_bev_update(s, n, m, v, x);
        assert(h * e >= 0) by(nonlinear_arith) requires h >= 0, e > 0;
        let he = (h * e) as nat; lemma_pow_split(x, he, n, p); lemma_pow_multiplies(x, e as nat, h); assert(e * h == h * e) by(nonlinear_arith);
        let y = pow(x, m as nat); let w = pow(x, he); let ah = a[h as int]; 
        let z = if (he / n) % 2 == 1 { -y } else { y };
        lemma_cong_mul(ah, ah, w, z, p); assert(ah * (-y) == (-ah) * y) by(nonlinear_arith);
        assert(cong(v * y, ah * w, p));
        lemma_cong_add(bev(s, 0, n, x), bev(a, 0, h, pow(x, e as nat)), v * y, ah * w, p);
        assert((v - 0) * y == v * y);
    }
}
pub proof fn lemma_bev_zero(s: Seq<int>, n: nat, x: int) requires n <= s.len(), forall|k: int| 0 <= k < n ==> #[trigger] s[k] == 0, ensures bev(s, 0, n, x) == 0, decreases n,
{ if n > 0 { lemma_bev_zero(s, (n - 1) as nat, x); let y = pow(x, (n - 1) as nat); assert(0 * y == 0); } }
/// reversing twice is the identity
pub proof fn lemma_brv_invol(k: nat, x: nat) requires x < pow2(k), ensures brv(k, brv(k, x)) == x, brv(k, x) < pow2(k), decreases k,
{
    lemma_brv_bound(k, x);
    if k == 0 { lemma_pow64(); }
    else {
        let h = (k - 1) as nat; lemma_pow2_unfold(k); let y = brv(h, x / 2); lemma_brv_bound(h, x / 2); lemma_brv_invol(h, x / 2); lemma_brv_double(h, y); lemma_brv_succ(k, h, y);
        assert((pow2(k) - 2 * pow2(h) + y) as nat == y);
        assert((x % 2) * pow2(h) == (if x % 2 == 1 { pow2(h) } else { 0 })) by(nonlinear_arith) requires x % 2 == 0 || x % 2 == 1;
        assert(h + 1 == k);
    }
}
pub open spec fn clog(c: RqContext) -> nat { nlog(c.ntt_ops@[0]) }
/// where the transform of a(X^e) at place t is found in the transform of a
pub open spec fn sub_src(c: RqContext, e: int, t: int) -> int { brv(clog(c), (((e - 1) / 2 + brv(clog(c), t as nat) * e) % (c.degree as int)) as nat) as int }
pub open spec fn subst_wf(s: Substitution, c: RqContext) -> bool {
    s.exponent % 2 == 1 && s.exponent < 2 * c.degree && s.powers_bitrev.len() == c.degree
    && forall|i: int| 0 <= i < c.degree ==> #[trigger] s.powers_bitrev@[i] == brv(clog(c), (((s.exponent - 1) / 2 + i * s.exponent) % (c.degree as int)) as nat)
}
pub proof fn lemma_clog(c: RqContext, i: int) requires ctx_wf(c), 0 <= i < ctx_n(c), ensures c.degree == pow2(clog(c)), clog(c) < 61, nlog(c.ntt_ops@[i]) == clog(c), clog(c) >= 3,
{ assert(ntt_wf(c.ntt_ops@[0])); assert(ntt_wf(c.ntt_ops@[i])); lemma_nlog(c.ntt_ops@[0]); lemma_nlog(c.ntt_ops@[i]); lemma_pow2_inj(clog(c), nlog(c.ntt_ops@[i])); lemma_pow2_strict(3); lemma2_to64(); }
pub open spec fn subst_row(a: Seq<u64>, e: int, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| (nsubst(ints(a), e)[k] % q) as u64) }
/// the point of the source slot is the e-th power of the point of the target slot
pub proof fn lemma_sub_point(c: RqContext, i: int, e: int, t: int)
    requires ctx_wf(c), 0 <= i < ctx_n(c), e % 2 == 1, 0 < e, 0 <= t < c.degree,
    ensures 0 <= sub_src(c, e, t) < c.degree, cong(npt(c.ntt_ops@[i], sub_src(c, e, t)), pow(npt(c.ntt_ops@[i], t), e as nat), cq(c, i)),
{
    let o = c.ntt_ops@[i]; lemma_ctx(c, i); lemma_clog(c, i); let L = clog(c); let n = c.degree as int; let p = cq(c, i); let psi = npsi(o);
    let b = brv(L, t as nat); lemma_brv_bound(L, t as nat); let w = (e - 1) / 2 + b * e; assert(b * e >= 0) by(nonlinear_arith) requires b >= 0, e > 0;
    lemma_mod_range(w, n); let r = (w % n) as nat; let t2 = sub_src(c, e, t); lemma_brv_invol(L, r); assert(t2 == brv(L, r));
    lemma_pt_power(o, t); lemma_pt_power(o, t2);
    let E = 2 * b + 1; lemma_pow_multiplies(psi, E, e as nat); lemma_pow_cong(npt(o, t), pow(psi, E), e as nat, p);
    // E e == 2 w + 1 == 2 r + 1 + 2 n (w / n)
    lemma_fundamental_div_mod(w, n); let d = w / n; assert(d >= 0) by { lemma_div_bounds(w, n); }
    assert(E * e == 2 * w + 1) by(nonlinear_arith) requires E == 2 * b + 1, w == (e - 1) / 2 + b * e, 2 * ((e - 1) / 2) == e - 1;
    assert(2 * w + 1 == (2 * r + 1) + 2 * (n * d));
    lemma_pow_full(psi, (2 * r + 1) as nat, n as nat, d as nat, p);
    assert((2 * r + 1 + 2 * (n * d)) as nat == (E * e) as nat);
}
pub proof fn lemma_pow_full(psi: int, f: nat, n: nat, d: nat, p: int) requires p > 1, pow(psi, n) % p == p - 1, ensures cong(pow(psi, (f + 2 * (n * d)) as nat), pow(psi, f), p), decreases d,
{
    if d > 0 {
        let g = (d - 1) as nat; lemma_pow_full(psi, f, n, g, p); let y = pow(psi, n);
        assert(n * d == n * g + n) by(nonlinear_arith) requires g == d - 1;
        lemma_pow_adds(psi, n, n); lemma_pow_adds(psi, (f + 2 * (n * g)) as nat, n + n);
        assert(cong(y, -1, p)) by { lemma_small_mod((p - 1) as nat, p as nat); lemma_cong_intro(p - 1, -1, 1, p); }
        lemma_cong_mul(y, -1, y, -1, p); lemma_cong_mul(pow(psi, (f + 2 * (n * g)) as nat), pow(psi, f), y * y, 1, p);
        assert((f + 2 * (n * d)) as nat == ((f + 2 * (n * g)) as nat) + (n + n));
    } else { assert(n * 0 == 0); }
}
/// in either representation the result denotes the substituted element
pub proof fn lemma_subst_den(p: Poly, r: Poly, e: int, i: int, a: Seq<u64>)
    requires poly_wf(p), poly_wf(r), r.context == p.context, r.representation == p.representation, e % 2 == 1, 0 < e, 0 <= i < ctx_n(*p.context), denotes(p, i, a),
      p.representation == Representation::PowerBasis ==> forall|m: int| 0 <= m < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[m] == nsubst(ints(p.coefficients.rows@[i]@), e)[m] % cq(*p.context, i),
      p.representation != Representation::PowerBasis ==> forall|t: int| 0 <= t < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[t] == p.coefficients.rows@[i]@[sub_src(*p.context, e, t)],
    ensures denotes(r, i, subst_row(a, e, cq(*p.context, i))),
{
    let c = pctx(p); let q = cq(c, i); let s = subst_row(a, e, q); let o = c.ntt_ops@[i]; let n = c.degree as nat; lemma_ctx(c, i); lemma_clog(c, i); let L = clog(c);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]) < q && s[k] as int == nsubst(ints(a), e)[k] % q by { lemma_mod_range(nsubst(ints(a), e)[k], q); }
    if p.representation == Representation::PowerBasis { assert(r.coefficients.rows@[i]@ =~= s); }
    else {
        let f = p.coefficients.rows@[i]@; let g = r.coefficients.rows@[i]@; let ai = ints(a);
        assert forall|t: int| 0 <= t < o.size implies (#[trigger] g[t]) < o.p.p && g[t] as int == bev(ints(s), 0, n, npt(o, t)) % (o.p.p as int) by {
            assert(r.coefficients.rows@[i]@[t] < c.moduli_64@[i]);
            let u = sub_src(c, e, t); lemma_sub_point(c, i, e, t); let x = npt(o, t); lemma_pt_neg(o, t);
            lemma_sub_eval(ai, e, L, n, x, q); lemma_sub_len(ai, e, n as int, n);
            let ns = nsubst(ai, e);
            assert forall|k: int| 0 <= k < n implies cong(#[trigger] ints(s)[0 + k], ns[0 + k], q) by { assert(s[k] as int == ns[k] % q); lemma_mod_range(ns[k], q); }
            lemma_bev_cong(ints(s), ns, 0, n, x, x, q);
            assert forall|k: int| 0 <= k < n implies cong(#[trigger] ai[0 + k], ai[0 + k], q) by { }
            lemma_bev_cong(ai, ai, 0, n, npt(o, u), pow(x, e as nat), q);
            assert(g[t] == f[u]); assert(f[u] as int == bev(ai, 0, n, npt(o, u)) % q);
        }
        assert(fwd_post(o, s, g));
    }
}
/// masks of a power of two
pub proof fn lemma_mask(k: nat, n: usize, mask: usize) requires k < 62, n == pow2(k), mask == n - 1, ensures forall|x: usize| #[trigger] (x & mask) == x % n, forall|x: usize| (#[trigger] (x & n) != 0) == ((x as int / n as int) % 2 == 1), forall|x: usize| #[trigger] (x & 1) == x % 2,
{
    assert forall|x: usize| #[trigger] (x & mask) == x % n by { vstd::bits::lemma_usize_low_bits_mask_is_mod(x, k); lemma_pow2_pos(k); assert(vstd::bits::low_bits_mask(k) == mask); }
    assert forall|x: usize| (#[trigger] (x & n) != 0) == ((x as int / n as int) % 2 == 1) by {
        let y = x as u64; let m = n as u64; let kk = k as u64; 
        lemma_pow64(); vstd::bits::lemma_u64_shr_is_div(y, kk); lemma_pow2_mono(k, 62); vstd::bits::lemma_u64_shl_is_mul(1, kk); assert(m == 1u64 << kk);
        assert((y & m != 0) == ((y >> kk) % 2 == 1)) by(bit_vector) requires m == 1u64 << kk, kk < 62;
        assert((x & n) as u64 == y & m) by(bit_vector) requires y == x as u64, m == n as u64;
    }
    assert forall|x: usize| #[trigger] (x & 1) == x % 2 by { assert(x & 1 == x % 2) by(bit_vector); }
}
pub proof fn lemma_sub_all_len(e: int, n: int) requires n > 0, ensures forall|a: Seq<int>| #![trigger sub_st(a, e, n, 0)] sub_st(a, e, n, 0) == Seq::new(n as nat, |k: int| 0int), { }
pub open spec fn sub_env(c: RqContext, L: nat, n: int, e: int, a: Substitution, p: Poly) -> bool { ctx_wf(c) && c == *p.context && L == clog(c) && n == c.degree && n == pow2(L) && L < 61 && n <= 0x4000_0000 && e == a.exponent && subst_wf(a, c) && c.moduli.len() == ctx_n(c) }
pub open spec fn sub_next(r: Seq<u64>, e: int, n: int, jj: int) -> bool {
    let a = ints(r); let x = a[jj]; let s = sub_st(a, e, n, jj as nat);
    s.len() == n && s[(jj * e) % n] == 0 && sub_st(a, e, n, (jj + 1) as nat) == s.update((jj * e) % n, if ((jj * e) / n) % 2 == 1 { -x } else { x })
}
