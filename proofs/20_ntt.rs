// The number-theoretic transform: evaluation at the odd powers of psi.
pub open spec fn ints(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
/// value at x of the polynomial with coefficients s[off], ..., s[off + len - 1]
pub open spec fn bev(s: Seq<int>, off: int, len: nat, x: int) -> int decreases len {
    if len == 0 { 0 } else { bev(s, off, (len - 1) as nat, x) + s[off + len - 1] * pow(x, (len - 1) as nat) }
}
pub proof fn lemma_bev_split(s: Seq<int>, off: int, l: nat, k: nat, x: int)
    ensures bev(s, off, l + k, x) == bev(s, off, l, x) + pow(x, l) * bev(s, off + l, k, x),
    decreases k,
{
    if k == 0 { assert(pow(x, l) * 0 == 0); assert(bev(s, off + l, 0, x) == 0); }
    else {
        let j = (k - 1) as nat;
        lemma_bev_split(s, off, l, j, x);
        lemma_pow_adds(x, l, j);
        let c = s[off + l + j];
        assert((l + k - 1) as nat == l + j);
        assert(off + (l + k) - 1 == off + l + j && (off + l) + k - 1 == off + l + j);
        let P = pow(x, l); let Q = pow(x, j); let R = bev(s, off + l, j, x);
        assert(P * (R + c * Q) == P * R + c * (P * Q)) by(nonlinear_arith);
    }
}
/// congruence of c1*a + c2*b
pub proof fn lemma_cong_lin(a: int, b: int, c: int, d: int, c1: int, c2: int, m: int)
    requires m > 0, a % m == b % m, c % m == d % m,
    ensures (c1 * a + c2 * c) % m == (c1 * b + c2 * d) % m,
{ lemma_cong_mul(c1, c1, a, b, m); lemma_cong_mul(c2, c2, c, d, m); lemma_cong_add(c1 * a, c1 * b, c2 * c, c2 * d, m); }
/// evaluation is linear
pub proof fn lemma_bev_lin(r: Seq<int>, o: int, s: Seq<int>, o1: int, c1: int, o2: int, c2: int, l: nat, x: int, p: int)
    requires p > 0, forall|k: int| 0 <= k < l ==> cong(#[trigger] r[o + k], c1 * s[o1 + k] + c2 * s[o2 + k], p),
    ensures cong(bev(r, o, l, x), c1 * bev(s, o1, l, x) + c2 * bev(s, o2, l, x), p),
    decreases l,
{
    if l == 0 { assert(c1 * 0 + c2 * 0 == 0) by(nonlinear_arith); }
    else {
        let j = (l - 1) as nat; let q = pow(x, j);
        lemma_bev_lin(r, o, s, o1, c1, o2, c2, j, x, p);
        let a = s[o1 + j]; let b = s[o2 + j]; let A = bev(s, o1, j, x); let B = bev(s, o2, j, x);
        assert(o + l - 1 == o + j && o1 + l - 1 == o1 + j && o2 + l - 1 == o2 + j);
        assert(cong(r[o + j], c1 * a + c2 * b, p));
        lemma_cong_mul(r[o + j], c1 * a + c2 * b, q, q, p);
        lemma_cong_add(bev(r, o, j, x), c1 * A + c2 * B, r[o + j] * q, (c1 * a + c2 * b) * q, p);
        assert((c1 * A + c2 * B) + (c1 * a + c2 * b) * q == c1 * (A + a * q) + c2 * (B + b * q)) by(nonlinear_arith);
    }
}
pub proof fn lemma_bev_cong(r: Seq<int>, s: Seq<int>, off: int, l: nat, x: int, y: int, p: int)
    requires p > 0, cong(x, y, p), forall|k: int| 0 <= k < l ==> cong(#[trigger] r[off + k], s[off + k], p),
    ensures cong(bev(r, off, l, x), bev(s, off, l, y), p),
    decreases l,
{
    if l > 0 {
        let j = (l - 1) as nat;
        lemma_bev_cong(r, s, off, j, x, y, p);
        lemma_pow_cong(x, y, j, p);
        assert(off + l - 1 == off + j);
        assert(cong(r[off + j], s[off + j], p));
        lemma_cong_mul(r[off + j], s[off + j], pow(x, j), pow(y, j), p);
        lemma_cong_add(bev(r, off, j, x), bev(s, off, j, y), r[off + j] * pow(x, j), s[off + j] * pow(y, j), p);
    }
}
pub proof fn lemma_pow_cong(x: int, y: int, e: nat, p: int) requires p > 0, cong(x, y, p), ensures cong(pow(x, e), pow(y, e), p), decreases e,
{
    if e == 0 { lemma_pow0(x); lemma_pow0(y); }
    else { reveal(pow); lemma_pow_cong(x, y, (e - 1) as nat, p); lemma_cong_mul(x, y, pow(x, (e - 1) as nat), pow(y, (e - 1) as nat), p); }
}

// ---- bit reversal
pub proof fn lemma_brv_bound(k: nat, x: nat) ensures brv(k, x) < pow2(k), decreases k,
{
    if k == 0 { lemma_pow64(); }
    else { let h = (k - 1) as nat; lemma_brv_bound(h, x / 2); lemma_pow2_unfold(k);
        assert((x % 2) * pow2(h) <= pow2(h)) by(nonlinear_arith) requires x % 2 <= 1, pow2(h) >= 0; }
}
/// a clear top bit becomes a clear low bit
pub proof fn lemma_brv_double(k: nat, x: nat) requires x < pow2(k), ensures brv(k + 1, x) == 2 * brv(k, x), decreases k,
{
    lemma_pow2_unfold(k + 1);
    if k == 0 { lemma_pow64(); assert(x == 0); assert(brv(1, 0) == (0nat % 2) * pow2(0) + brv(0, 0)); assert(0 * pow2(0) == 0); }
    else {
        let h = (k - 1) as nat; lemma_pow2_unfold(k); lemma_brv_double(h, x / 2);
        assert((x % 2) * pow2(k) == 2 * ((x % 2) * pow2(h))) by(nonlinear_arith) requires pow2(k) == 2 * pow2(h);
    }
}
pub proof fn lemma_brv_shift(k: nat, j: nat, x: nat) requires x < pow2(k), ensures brv(k + j, x) == pow2(j) * brv(k, x), decreases j,
{
    if j == 0 { lemma_pow64(); assert(1 * brv(k, x) == brv(k, x)); }
    else {
        let i = (j - 1) as nat; lemma_brv_shift(k, i, x); lemma_pow2_strict(k + i); lemma_pow2_mono(k, k + i);
        lemma_brv_double(k + i, x); lemma_pow2_unfold(j); assert(k + i + 1 == k + j);
        let b = brv(k, x);
        assert(2 * (pow2(i) * b) == pow2(j) * b) by(nonlinear_arith) requires pow2(j) == 2 * pow2(i);
    }
}
pub proof fn lemma_brv_ones(k: nat) ensures brv(k, (pow2(k) - 1) as nat) == pow2(k) - 1, decreases k,
{
    if k == 0 { lemma_pow64(); }
    else { let h = (k - 1) as nat; lemma_brv_ones(h); lemma_pow2_unfold(k); lemma_pow2_pos(h); let x = (pow2(k) - 1) as nat;
        assert(x % 2 == 1 && x / 2 == (pow2(h) - 1) as nat); assert(1 * pow2(h) == pow2(h)); }
}
pub proof fn lemma_brv_zero(k: nat) ensures brv(k, 0) == 0, decreases k,
{ if k > 0 { lemma_brv_zero((k - 1) as nat); assert(0 * pow2((k - 1) as nat) == 0); } }
/// reversing (1..1 0 i) and adding one gives the reversal of (0..0 1 i)
pub proof fn lemma_brv_succ(k: nat, a: nat, i: nat)
    requires a < k, i < pow2(a),
    ensures pow2(k) >= 2 * pow2(a), brv(k, (pow2(k) - 2 * pow2(a) + i) as nat) + 1 == brv(k, pow2(a) + i), pow2(a) + i < pow2(k),
    decreases k,
{
    let h = (k - 1) as nat;
    lemma_pow2_unfold(k); lemma_pow2_mono(a, h);
    let x = (pow2(k) - 2 * pow2(a) + i) as nat; let y = pow2(a) + i;
    if a == 0 {
        lemma_pow64(); assert(pow2(a) == 1 && i == 0);
        lemma_pow2_pos(h); lemma_brv_ones(h); lemma_brv_zero(h);
        assert(x % 2 == 0 && x / 2 == (pow2(h) - 1) as nat && y % 2 == 1 && y / 2 == 0);
        assert(0 * pow2(h) == 0 && 1 * pow2(h) == pow2(h));
    } else {
        lemma_pow2_unfold(a);
        let b = (a - 1) as nat;
        lemma_brv_succ(h, b, i / 2);
        assert(x / 2 == (pow2(h) - 2 * pow2(b) + i / 2) as nat && x % 2 == i % 2);
        assert(y / 2 == pow2(b) + i / 2 && y % 2 == i % 2);
    }
}

// ---- the operator
pub open spec fn npsi(o: NttOperator) -> int { o.omegas@[o.size as int / 2] as int }
pub open spec fn nlog(o: NttOperator) -> nat { choose|k: nat| k < 61 && o.size == #[trigger] pow2(k) }
/// the t-th evaluation point: psi^(2 brv(t) + 1)
pub open spec fn npt(o: NttOperator, t: int) -> int {
    if t % 2 == 0 { o.omegas@[o.size as int / 2 + t / 2] as int } else { -(o.omegas@[o.size as int / 2 + t / 2] as int) }
}
pub open spec fn ntt_ok(p: int, n: int) -> bool { is_prime(p as nat) && n >= 8 && (exists|k: nat| k < 61 && n == #[trigger] pow2(k)) && p % (2 * n) == 1 }
pub open spec fn ntt_wf(o: NttOperator) -> bool {
    let n = o.size as int; let p = o.p.p as int;
    &&& mod_wf(o.p) && ntt_ok(p, n) && o.p_twice == 2 * p
    &&& o.omegas.len() == n && o.omegas_shoup.len() == n && o.zetas_inv.len() == n && o.zetas_inv_shoup.len() == n
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] o.omegas@[k]) < p && o.omegas_shoup@[k] as int == shoup_of(o.omegas@[k] as int, p)
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] o.zetas_inv@[k]) < p && o.zetas_inv_shoup@[k] as int == shoup_of(o.zetas_inv@[k] as int, p)
    &&& pow(npsi(o), n as nat) % p == p - 1
    &&& forall|k: int| 0 <= k < n ==> cong(#[trigger] o.omegas@[k] as int, pow(npsi(o), brv(nlog(o), k as nat)), p)
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] o.zetas_inv@[k] * pow(npsi(o), brv(nlog(o), k as nat) + 1)) % p == 1
    &&& o.size_inv < p && (o.size_inv * n) % p == 1 && o.size_inv_shoup as int == shoup_of(o.size_inv as int, p)
}
pub proof fn lemma_nlog(o: NttOperator) requires exists|k: nat| k < 61 && o.size == #[trigger] pow2(k), ensures o.size == pow2(nlog(o)), nlog(o) < 61,
{ }
/// omega[2k]^2 = omega[k], omega[2k+1]^2 = -omega[k]
pub proof fn lemma_omega_sq(o: NttOperator, k: int)
    requires ntt_wf(o), 0 <= k < o.size / 2,
    ensures cong(o.omegas@[2 * k] * o.omegas@[2 * k], o.omegas@[k] as int, o.p.p as int), cong(o.omegas@[2 * k + 1] * o.omegas@[2 * k + 1], -o.omegas@[k], o.p.p as int),
{
    let L = nlog(o); lemma_nlog(o); let p = o.p.p as int; let n = o.size as int; let psi = npsi(o);
    let h = (L - 1) as nat; if L == 0 { lemma_pow64(); }
    lemma_pow2_unfold(L);
    lemma_brv_double(h, k as nat);
    let e = brv(h, k as nat);
    assert((2 * k) as nat % 2 == 0 && (2 * k) as nat / 2 == k as nat); assert((2 * k + 1) as nat % 2 == 1 && (2 * k + 1) as nat / 2 == k as nat);
    assert(0 * pow2(h) == 0 && 1 * pow2(h) == pow2(h));
    assert(brv(L, (2 * k) as nat) == e); assert(brv(L, (2 * k + 1) as nat) == pow2(h) + e);
    let w = o.omegas@[k] as int; let w0 = o.omegas@[2 * k] as int; let w1 = o.omegas@[2 * k + 1] as int;
    assert(cong(w, pow(psi, 2 * e), p)); assert(cong(w0, pow(psi, e), p)); assert(cong(w1, pow(psi, pow2(h) + e), p));
    lemma_pow_adds(psi, e, e);
    lemma_cong_mul(w0, pow(psi, e), w0, pow(psi, e), p);
    let f = (pow2(h) + e) as nat; lemma_pow_adds(psi, f, f); lemma_pow_adds(psi, n as nat, 2 * e);
    assert(f + f == n + 2 * e);
    lemma_cong_mul(w1, pow(psi, f), w1, pow(psi, f), p);
    let pn = pow(psi, n as nat); let pe = pow(psi, 2 * e);
    assert(cong(pn, -1, p)) by { lemma_small_mod((p - 1) as nat, p as nat); lemma_cong_intro(p - 1, -1, 1, p); }
    lemma_cong_mul(pn, -1, pe, w, p);
    assert((-1) * w == -w);
}
pub proof fn lemma_omega_one(o: NttOperator)
    requires ntt_wf(o), ensures o.omegas@[0] == 1, cong(o.omegas@[1] * o.omegas@[1], -1, o.p.p as int),
{
    lemma_nlog(o); lemma_brv_zero(nlog(o)); lemma_pow0(npsi(o)); assert(cong(o.omegas@[0] as int, pow(npsi(o), brv(nlog(o), 0)), o.p.p as int));
    lemma_canon(o.omegas@[0] as int, 1, o.p.p as int); lemma_small_mod(1, o.p.p as nat);
    lemma_omega_sq(o, 0);
}
/// +-omega[(m + b) / 2]: the value of x^(n / m) for the points of block b when there are m blocks
pub open spec fn nroot(o: NttOperator, m: int, b: int) -> int {
    if m == 1 { -1 } else if b % 2 == 0 { o.omegas@[(m + b) / 2] as int } else { -(o.omegas@[(m + b) / 2] as int) }
}
/// x_t^l for l = 2^e
pub proof fn lemma_point(o: NttOperator, t: int, l: int, m: int, e: nat)
    requires ntt_wf(o), 0 <= t < o.size, l == pow2(e), m >= 1, m * l == o.size,
    ensures cong(pow(npt(o, t), l as nat), nroot(o, m, t / l), o.p.p as int), 0 <= t / l < m,
    decreases e,
{
    let n = o.size as int; let p = o.p.p as int; let x = npt(o, t); lemma_nlog(o);
    lemma_pow2_pos(e); lemma_div_pos_is_pos(t, l); lemma_div_bounds(t, l);
    assert(t / l < m) by(nonlinear_arith) requires (t / l) * l <= t, t < m * l, l > 0;
    if e == 0 {
        lemma_pow64(); lemma_pow1(x); assert(l == 1 && m == n) by(nonlinear_arith) requires l == 1, m * l == n;
        assert(t / 1 == t); lemma_pow2_unfold(nlog(o));
        assert(n % 2 == 0);
    } else {
        let h = (e - 1) as nat; lemma_pow2_unfold(e); let l0 = pow2(h) as int; let m0 = 2 * m; let b0 = t / l0;
        assert(m0 * l0 == n) by(nonlinear_arith) requires m0 == 2 * m, l == 2 * l0, m * l == n;
        lemma_point(o, t, l0, m0, h);
        lemma_pow2_pos(h);
        assert(t / l == b0 / 2) by { lemma_div_div(t, l0, 2); assert(l == l0 * 2); }
        lemma_pow_adds(x, l0 as nat, l0 as nat);
        let y = pow(x, l0 as nat); let r = nroot(o, m0, b0);
        lemma_cong_mul(y, r, y, r, p);
        let k = (m0 + b0) / 2; let w = o.omegas@[k] as int;
        assert(k == m + b0 / 2);
        assert(r * r == w * w) by(nonlinear_arith) requires r == w || r == -w;
        assert(k < n) by { assert(m * l == n); assert(m0 <= n) by(nonlinear_arith) requires m0 * l0 == n, l0 >= 1, m0 >= 0; }
        let k2 = k / 2;
        assert(0 <= k2 < n / 2) by { if nlog(o) == 0 { lemma_pow64(); } lemma_pow2_unfold(nlog(o)); }
        lemma_omega_sq(o, k2);
        if m == 1 { lemma_omega_one(o); assert(b0 == 0 || b0 == 1); assert(k == 1); }
        else {
            // m = n / l is a power of two, so even
            lemma_pow2_quot(o, m, l, e);
            assert(k % 2 == (b0 / 2) % 2);
            assert(k2 == (m + b0 / 2) / 2);
            if k % 2 == 0 { assert(k == 2 * k2); } else { assert(k == 2 * k2 + 1); }
        }
    }
}
proof fn lemma_pow2_quot(o: NttOperator, m: int, l: int, e: nat) requires ntt_wf(o), l == pow2(e), m * l == o.size, m > 1, ensures m % 2 == 0,
{
    lemma_nlog(o); let L = nlog(o); lemma_pow2_pos(e);
    if e >= L { lemma_pow2_mono(L, e); assert(false) by(nonlinear_arith) requires m * l == o.size, l >= o.size, m > 1, o.size > 0; }
    else { let d = (L - e) as nat; lemma_pow2_adds(e, d); lemma_pow2_unfold(d);
        assert(m == pow2(d)) by(nonlinear_arith) requires m * l == pow2(e) * pow2(d), l == pow2(e), l > 0; }
}
/// zetas_inv[n - 2m + i] * omega[m + i] = 1
pub proof fn lemma_zeta(o: NttOperator, a: nat, i: int)
    requires ntt_wf(o), a < nlog(o), 0 <= i < pow2(a),
    ensures ({ let m = pow2(a) as int; let n = o.size as int; 0 <= n - 2 * m + i < n && m + i < n && (o.zetas_inv@[n - 2 * m + i] * o.omegas@[m + i]) % (o.p.p as int) == 1 }),
{
    let m = pow2(a) as int; let n = o.size as int; let p = o.p.p as int; lemma_nlog(o); let L = nlog(o); let psi = npsi(o);
    lemma_brv_succ(L, a, i as nat);
    let k = n - 2 * m + i;
    assert((o.zetas_inv@[k] * pow(psi, brv(L, k as nat) + 1)) % p == 1);
    assert(cong(o.omegas@[m + i] as int, pow(psi, brv(L, (m + i) as nat)), p));
    lemma_cong_mul(o.zetas_inv@[k] as int, o.zetas_inv@[k] as int, o.omegas@[m + i] as int, pow(psi, brv(L, (m + i) as nat)), p);
}

// ---- one layer of butterflies
/// what the forward layer with half-length l (m blocks of 2l) puts at position t
pub open spec fn fwd_val(o: NttOperator, st: Seq<int>, l: int, m: int, t: int) -> int {
    let w = o.omegas@[m + t / (2 * l)] as int;
    if t % (2 * l) < l { st[t] + w * st[t + l] } else { st[t - l] - w * st[t] }
}
pub open spec fn bwd_val(o: NttOperator, st: Seq<int>, l: int, m: int, t: int) -> int {
    let z = o.zetas_inv@[o.size as int - 2 * m + t / (2 * l)] as int;
    if t % (2 * l) < l { st[t] + st[t + l] } else { z * (st[t - l] - st[t]) }
}
/// blocks of length l2, evaluated at their points, are the target values times c
pub open spec fn stage_inv(o: NttOperator, cur: Seq<int>, l2: int, c: int, tgt: Seq<int>) -> bool {
    forall|t: int| 0 <= t < o.size ==> cong(bev(cur, (t / l2) * l2, l2 as nat, #[trigger] npt(o, t)), tgt[t] * c, o.p.p as int)
}
pub proof fn lemma_block(t: int, l: int)
    requires l > 0, t >= 0,
    ensures ({ let b = t / (2 * l); let r = t % (2 * l); t == b * (2 * l) + r && 0 <= r < 2 * l && b >= 0
        && (r < l ==> t / l == 2 * b && (t / l) * l == b * (2 * l)) && (r >= l ==> t / l == 2 * b + 1 && (t / l) * l == b * (2 * l) + l) }),
{
    let b = t / (2 * l); let r = t % (2 * l);
    lemma_fundamental_div_mod(t, 2 * l); lemma_mod_bound(t, 2 * l); lemma_div_pos_is_pos(t, 2 * l);
    assert(t == b * (2 * l) + r) by(nonlinear_arith) requires t == (2 * l) * b + r;
    assert((2 * b) * l == b * (2 * l)) by(nonlinear_arith); assert((2 * b + 1) * l == b * (2 * l) + l) by(nonlinear_arith);
    if r < l { assert(t == l * (2 * b) + r) by(nonlinear_arith) requires t == (2 * l) * b + r; lemma_fundamental_div_mod_converse(t, l, 2 * b, r); }
    else { assert(t == l * (2 * b + 1) + (r - l)) by(nonlinear_arith) requires t == (2 * l) * b + r; lemma_fundamental_div_mod_converse(t, l, 2 * b + 1, r - l); }
}
/// position q + k of a block starting at q = b * 2l
pub proof fn lemma_in_block(b: int, l: int, k: int)
    requires l > 0, b >= 0, 0 <= k < 2 * l,
    ensures (b * (2 * l) + k) / (2 * l) == b, (b * (2 * l) + k) % (2 * l) == k,
{ assert(b * (2 * l) + k == (2 * l) * b + k) by(nonlinear_arith); lemma_fundamental_div_mod_converse(b * (2 * l) + k, 2 * l, b, k); }
pub proof fn lemma_block_fit(b: int, m: int, l: int, n: int) requires 0 <= b < m, m * (2 * l) == n, l > 0, ensures b * (2 * l) + 2 * l <= n, b * (2 * l) >= 0,
{ assert(b * (2 * l) + 2 * l <= m * (2 * l)) by(nonlinear_arith) requires b + 1 <= m, l > 0; assert(b * (2 * l) >= 0) by(nonlinear_arith) requires b >= 0, l > 0; }

proof fn lemma_fwd_at(o: NttOperator, st: Seq<int>, nx: Seq<int>, l: int, m: int, e: nat, t: int)
    requires ntt_wf(o), l == pow2(e), m >= 1, m * (2 * l) == o.size, st.len() == o.size, nx.len() == o.size, 0 <= t < o.size,
        forall|t: int| 0 <= t < o.size ==> cong(#[trigger] nx[t], fwd_val(o, st, l, m, t), o.p.p as int),
    ensures cong(bev(nx, (t / l) * l, l as nat, npt(o, t)), bev(st, (t / (2 * l)) * (2 * l), (2 * l) as nat, npt(o, t)), o.p.p as int),
{
    let n = o.size as int; let p = o.p.p as int; let x = npt(o, t);
    lemma_pow2_pos(e); lemma_block(t, l);
    let b = t / (2 * l); let q = b * (2 * l);
    assert(b < m) by(nonlinear_arith) requires q == b * (2 * l), q <= t, t < n, m * (2 * l) == n, l > 0;
    lemma_block_fit(b, m, l, n);
    assert((2 * m) * l == n) by(nonlinear_arith) requires m * (2 * l) == n;
    lemma_point(o, t, l, 2 * m, e);
    lemma_bev_split(st, q, l as nat, l as nat, x);
    let w = o.omegas@[m + b] as int; let A = bev(st, q, l as nat, x); let B = bev(st, q + l, l as nat, x); let y = pow(x, l as nat);
    let low = t % (2 * l) < l; let s = if low { w } else { -w }; let off = if low { q } else { q + l };
    assert((2 * m + 2 * b) / 2 == m + b && (2 * m + 2 * b + 1) / 2 == m + b);
    assert(cong(y, s, p));
    assert forall|k: int| 0 <= k < l implies cong(#[trigger] nx[off + k], 1 * st[q + k] + s * st[q + l + k], p) by {
        lemma_in_block(b, l, off - q + k);
        assert(nx[off + k] == nx[q + (off - q + k)]);
        assert((-w) * st[q + l + k] == -(w * st[q + l + k])) by(nonlinear_arith);
        assert(cong(nx[off + k], fwd_val(o, st, l, m, off + k), p));
    }
    lemma_bev_lin(nx, off, st, q, 1, q + l, s, l as nat, x, p);
    lemma_cong_mul(y, s, B, B, p); lemma_cong_add(A, A, y * B, s * B, p);
}
pub proof fn lemma_fwd_stage(o: NttOperator, st: Seq<int>, nx: Seq<int>, l: int, m: int, e: nat, tgt: Seq<int>)
    requires ntt_wf(o), l == pow2(e), m >= 1, m * (2 * l) == o.size, st.len() == o.size, nx.len() == o.size,
        forall|t: int| 0 <= t < o.size ==> cong(#[trigger] nx[t], fwd_val(o, st, l, m, t), o.p.p as int),
        stage_inv(o, st, 2 * l, 1, tgt),
    ensures stage_inv(o, nx, l, 1, tgt),
{
    assert forall|t: int| 0 <= t < o.size implies cong(bev(nx, (t / l) * l, l as nat, #[trigger] npt(o, t)), tgt[t] * 1, o.p.p as int) by { lemma_fwd_at(o, st, nx, l, m, e, t); }
}
pub proof fn lemma_bwd_stage(o: NttOperator, st: Seq<int>, nx: Seq<int>, l: int, m: int, e: nat, tgt: Seq<int>)
    requires ntt_wf(o), l == pow2(e), m >= 1, m * (2 * l) == o.size, st.len() == o.size, nx.len() == o.size,
        forall|t: int| 0 <= t < o.size ==> cong(#[trigger] nx[t], bwd_val(o, st, l, m, t), o.p.p as int),
        stage_inv(o, st, l, l, tgt),
    ensures stage_inv(o, nx, 2 * l, 2 * l, tgt),
{
    let n = o.size as int; let p = o.p.p as int;
    lemma_pow2_pos(e); lemma_nlog(o); let L = nlog(o);
    lemma_pow2_unfold(e + 1);
    // m is the power of two with exponent L - 1 - e
    if e + 1 > L { lemma_pow2_strict(L); assert(false) by(nonlinear_arith) requires m * (2 * l) == n, 2 * l > n, m >= 1, n > 0; }
    let a = (L - 1 - e) as nat; lemma_pow2_adds(e + 1, a);
    assert(m == pow2(a)) by(nonlinear_arith) requires m * (2 * l) == n, pow2(e + 1) == 2 * l, pow2(e + 1) * pow2(a) == n, l > 0;
    assert forall|t: int| 0 <= t < o.size implies cong(bev(nx, (t / (2 * l)) * (2 * l), (2 * l) as nat, #[trigger] npt(o, t)), tgt[t] * (2 * l), p) by {
        let x = npt(o, t);
        lemma_block(t, l);
        let b = t / (2 * l); let q = b * (2 * l);
        assert(b < m) by(nonlinear_arith) requires q == b * (2 * l), q <= t, t < n, m * (2 * l) == n, l > 0;
        lemma_block_fit(b, m, l, n);
        assert((2 * m) * l == n) by(nonlinear_arith) requires m * (2 * l) == n;
        lemma_point(o, t, l, 2 * m, e);
        lemma_bev_split(nx, q, l as nat, l as nat, x);
        lemma_zeta(o, a, b);
        let w = o.omegas@[m + b] as int; let z = o.zetas_inv@[n - 2 * m + b] as int;
        let A = bev(st, q, l as nat, x); let B = bev(st, q + l, l as nat, x); let y = pow(x, l as nat);
        let A1 = bev(nx, q, l as nat, x); let B1 = bev(nx, q + l, l as nat, x);
        assert forall|k: int| 0 <= k < l implies cong(#[trigger] nx[q + k], 1 * st[q + k] + 1 * st[q + l + k], p) by {
            lemma_in_block(b, l, k); assert(cong(nx[q + k], bwd_val(o, st, l, m, q + k), p)); }
        lemma_bev_lin(nx, q, st, q, 1, q + l, 1, l as nat, x, p);
        assert forall|k: int| 0 <= k < l implies cong(#[trigger] nx[q + l + k], z * st[q + k] + (-z) * st[q + l + k], p) by {
            lemma_in_block(b, l, l + k); assert(cong(nx[q + l + k], bwd_val(o, st, l, m, q + l + k), p));
            assert(z * (st[q + k] - st[q + l + k]) == z * st[q + k] + (-z) * st[q + l + k]) by(nonlinear_arith);
            assert(q + l + k - l == q + k); assert(q + (l + k) == q + l + k); }
        lemma_bev_lin(nx, q + l, st, q, z, q + l, -z, l as nat, x, p);
        assert((2 * m + 2 * b) / 2 == m + b && (2 * m + 2 * b + 1) / 2 == m + b);
        let low = t % (2 * l) < l; let s = if low { w } else { -w };
        assert(cong(y, s, p));
        // y * B1 = s z (A - B) = +-(A - B)
        lemma_cong_mul(y, s, B1, z * A + (-z) * B, p);
        let sg: int = if low { 1 } else { -1 };
        assert(s * (z * A + (-z) * B) == (z * w) * (sg * (A - B))) by(nonlinear_arith) requires s == sg * w;
        lemma_small_mod(1, p as nat);
        lemma_cong_mul(z * w, 1, sg * (A - B), sg * (A - B), p);
        lemma_cong_add(A1, 1 * A + 1 * B, y * B1, sg * (A - B), p);
        let v = if low { A } else { B };
        assert(1 * A + 1 * B + sg * (A - B) == 2 * v);
        assert(cong(v, tgt[t] * l, p));
        lemma_cong_mul(2, 2, v, tgt[t] * l, p);
        assert(2 * (tgt[t] * l) == tgt[t] * (2 * l)) by(nonlinear_arith);
    }
}
/// a vector whose values at all points are zero is zero
proof fn lemma_eval_inj_stage(o: NttOperator, d: Seq<int>, l2: int, m: int, e: nat)
    requires ntt_wf(o), l2 == pow2(e), m >= 1, m * l2 == o.size, d.len() == o.size,
        forall|t: int| 0 <= t < o.size ==> cong(bev(d, (t / l2) * l2, l2 as nat, #[trigger] npt(o, t)), 0, o.p.p as int),
    ensures forall|t: int| 0 <= t < o.size ==> cong(#[trigger] d[t], 0, o.p.p as int),
    decreases e,
{
    let n = o.size as int; let p = o.p.p as int;
    if e == 0 {
        lemma_pow64();
        assert forall|t: int| 0 <= t < n implies cong(#[trigger] d[t], 0, p) by {
            assert(t / 1 == t && t * 1 == t); let x = npt(o, t); lemma_pow0(x);
            assert(bev(d, t, 1, x) == bev(d, t, 0, x) + d[t + 1 - 1] * pow(x, 0));
            assert(cong(bev(d, (t / l2) * l2, l2 as nat, npt(o, t)), 0, p));
        }
    } else {
        let h = (e - 1) as nat; lemma_pow2_unfold(e); let l = pow2(h) as int; lemma_pow2_pos(h);
        assert(m * (2 * l) == n) by(nonlinear_arith) requires m * l2 == n, l2 == 2 * l;
        assert((2 * m) * l == n) by(nonlinear_arith) requires m * l2 == n, l2 == 2 * l;
        let nx = Seq::new(n as nat, |t: int| fwd_val(o, d, l, m, t));
        assert forall|t: int| 0 <= t < n implies cong(bev(nx, (t / l) * l, l as nat, #[trigger] npt(o, t)), 0, p) by { lemma_fwd_at(o, d, nx, l, m, h, t); }
        lemma_eval_inj_stage(o, nx, l, 2 * m, h);
        lemma_nlog(o); let L = nlog(o);
        if e > L { lemma_pow2_strict(L); assert(false) by(nonlinear_arith) requires m * l2 == n, l2 > n, m >= 1, n > 0; }
        let a = (L - e) as nat; lemma_pow2_adds(e, a);
        assert(m == pow2(a)) by(nonlinear_arith) requires m * l2 == n, pow2(e) == l2, pow2(e) * pow2(a) == n, l2 > 0;
        assert forall|t: int| 0 <= t < n implies cong(#[trigger] d[t], 0, p) by {
            lemma_block(t, l); let b = t / (2 * l); let q = b * (2 * l); let r = t % (2 * l); let k = if r < l { r } else { r - l };
            assert(b < m) by(nonlinear_arith) requires q == b * (2 * l), q <= t, t < n, m * (2 * l) == n, l > 0;
            lemma_block_fit(b, m, l, n);
            lemma_in_block(b, l, k); lemma_in_block(b, l, k + l); lemma_zeta(o, a, b);
            let w = o.omegas@[m + b] as int; let z = o.zetas_inv@[n - 2 * m + b] as int;
            let u = d[q + k]; let v = d[q + k + l];
            assert(nx[q + k] == u + w * v); assert(q + (k + l) == q + k + l); assert(nx[q + k + l] == u - w * v);
            assert(cong(nx[q + k], 0, p) && cong(nx[q + k + l], 0, p));
            lemma_cong_add(nx[q + k], 0, nx[q + k + l], 0, p);
            assert(cong(2 * u, 0, p)); assert(cong(2 * (w * v), 0, p));
            lemma_small_mod(0, p as nat);
            lemma_euclid(2, u, p); lemma_euclid(2, w * v, p);
            assert(2int % p != 0) by { lemma_odd_p(o); lemma_small_mod(2, p as nat); }
            lemma_cong_mul(z, z, w * v, 0, p); assert(z * 0 == 0); assert(z * (w * v) == (z * w) * v) by(nonlinear_arith);
            lemma_small_mod(1, p as nat); lemma_cong_mul(z * w, 1, v, v, p);
        }
    }
}
pub proof fn lemma_odd_p(o: NttOperator) requires ntt_wf(o), ensures o.p.p > 16,
{
    let p = o.p.p as int; let n = o.size as int; lemma_fundamental_div_mod(p, 2 * n);
    let q = p / (2 * n);
    assert(p == 2 * n * q + 1); assert(q >= 1) by(nonlinear_arith) requires p == 2 * n * q + 1, p >= 2, n >= 8;
    assert(p > 2 * n) by(nonlinear_arith) requires p == 2 * n * q + 1, q >= 1, n >= 8;
}
/// canonical vectors with equal values at all points are equal
pub proof fn lemma_eval_inj(o: NttOperator, a: Seq<u64>, b: Seq<u64>)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size,
        forall|t: int| 0 <= t < o.size ==> #[trigger] a[t] < o.p.p, forall|t: int| 0 <= t < o.size ==> #[trigger] b[t] < o.p.p,
        forall|t: int| 0 <= t < o.size ==> cong(bev(ints(a), 0, o.size as nat, #[trigger] npt(o, t)), bev(ints(b), 0, o.size as nat, npt(o, t)), o.p.p as int),
    ensures a == b,
{
    let n = o.size as int; let p = o.p.p as int; lemma_nlog(o);
    let c = ints(a) + ints(b);
    let d = Seq::new(n as nat, |t: int| a[t] - b[t]);
    assert forall|t: int| 0 <= t < n implies cong(bev(d, (t / n) * n, n as nat, #[trigger] npt(o, t)), 0, p) by {
        let x = npt(o, t);
        assert(t / n == 0) by { lemma_basic_div(t, n); } assert(0 * n == 0);
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] d[0 + k], 1 * c[0 + k] + (-1) * c[n + k], p) by { assert(c[k] == a[k]); assert(c[n + k] == b[k]); }
        lemma_bev_lin(d, 0, c, 0, 1, n, -1, n as nat, x, p);
        lemma_bev_off(c, 0, ints(a), 0, n as nat, x); lemma_bev_off(c, n, ints(b), 0, n as nat, x);
        let A = bev(ints(a), 0, n as nat, x); let B = bev(ints(b), 0, n as nat, x);
        assert(cong(A, B, p)); lemma_cong_add(A, B, B, B, p);
    }
    assert(1 * n == n);
    lemma_eval_inj_stage(o, d, n, 1, nlog(o));
    assert forall|t: int| 0 <= t < n implies a[t] == b[t] by {
        assert(cong(d[t], 0, p)); let k = lemma_cong_elim(d[t], 0, p); lemma_cong_intro(a[t] as int, b[t] as int, k, p);
        lemma_small_mod(a[t] as nat, p as nat); lemma_small_mod(b[t] as nat, p as nat);
    }
    assert(a =~= b);
}
pub proof fn lemma_bev_off(c: Seq<int>, o: int, a: Seq<int>, q: int, l: nat, x: int)
    requires forall|k: int| 0 <= k < l ==> #[trigger] c[o + k] == a[q + k],
    ensures bev(c, o, l, x) == bev(a, q, l, x),
    decreases l,
{ if l > 0 { lemma_bev_off(c, o, a, q, (l - 1) as nat, x); assert(o + l - 1 == o + (l - 1)); assert(q + l - 1 == q + (l - 1)); assert(c[o + (l - 1)] == a[q + (l - 1)]); } }

// ---- multiplication modulo X^n + 1
/// X^i b modulo X^n + 1
pub open spec fn nrot(b: Seq<int>, i: int) -> Seq<int> { Seq::new(b.len(), |k: int| if k >= i { b[k - i] } else { -b[b.len() + k - i] }) }
/// coefficient k of (a_0 + ... + a_{j-1} X^{j-1}) b modulo X^n + 1
pub open spec fn nmul_coef(a: Seq<int>, b: Seq<int>, j: nat, k: int) -> int decreases j {
    if j == 0 { 0 } else { nmul_coef(a, b, (j - 1) as nat, k) + a[j - 1] * nrot(b, j - 1)[k] }
}
pub open spec fn nmul(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(b.len(), |k: int| nmul_coef(a, b, a.len(), k)) }
proof fn lemma_rot_eval(b: Seq<int>, i: nat, x: int, p: int)
    requires p > 0, b.len() >= 1, i < b.len(), cong(pow(x, b.len()), -1, p),
    ensures cong(bev(nrot(b, i as int), 0, b.len(), x), pow(x, i) * bev(b, 0, b.len(), x), p),
{
    // b = lo (n - i coefficients) + x^(n-i) hi;  nrot = -hi + x^i lo
    let n = b.len(); let r = nrot(b, i as int); let h = (n - i) as nat;
    lemma_bev_split(b, 0, h, i, x); lemma_bev_split(r, 0, i, h, x);
    let A = bev(b, 0, h, x); let B = bev(b, h as int, i, x);
    assert forall|k: int| 0 <= k < h implies #[trigger] r[i + k] == b[0 + k] by { }
    lemma_bev_off(r, i as int, b, 0, h, x);
    assert forall|k: int| 0 <= k < i implies cong(#[trigger] r[0 + k], (-1) * b[h + k] + 0 * b[h + k], p) by { assert(n + k - i == h + k); }
    lemma_bev_lin(r, 0, b, h as int, -1, h as int, 0, i, x, p);
    let P = pow(x, i); let Q = pow(x, h); lemma_pow_adds(x, i, h);
    assert(0 + h == h && 0 + i == i);
    assert(P * (A + Q * B) == P * A + (P * Q) * B) by(nonlinear_arith);
    lemma_cong_mul(P * Q, -1, B, B, p);
    assert((-1) * B + 0 * B == -B && (-1) * B == -B);
    lemma_cong_add(P * A, P * A, (P * Q) * B, -B, p);
    lemma_cong_add(bev(r, 0, i, x), -B, P * A, P * A, p);
}
proof fn lemma_nmul_eval_upto(a: Seq<int>, b: Seq<int>, j: nat, x: int, p: int)
    requires p > 0, b.len() >= 1, j <= a.len(), a.len() <= b.len(), cong(pow(x, b.len()), -1, p),
    ensures cong(bev(Seq::new(b.len(), |k: int| nmul_coef(a, b, j, k)), 0, b.len(), x), bev(a, 0, j, x) * bev(b, 0, b.len(), x), p),
    decreases j,
{
    let n = b.len(); let r = Seq::new(n, |k: int| nmul_coef(a, b, j, k));
    let E = bev(b, 0, n, x);
    if j == 0 {
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] r[0 + k], 0 * r[0 + k] + 0 * r[0 + k], p) by { }
        lemma_bev_lin(r, 0, r, 0, 0, 0, 0, n, x, p); assert(0 * E == 0);
        let z = bev(r, 0, n, x); assert(0 * z + 0 * z == 0);
    } else {
        let i = (j - 1) as nat;
        lemma_nmul_eval_upto(a, b, i, x, p);
        let r0 = Seq::new(n, |k: int| nmul_coef(a, b, i, k)); let t = nrot(b, i as int); let c = r0 + t;
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] r[0 + k], 1 * c[0 + k] + a[i as int] * c[n + k], p) by { }
        lemma_bev_lin(r, 0, c, 0, 1, n as int, a[i as int], n, x, p);
        lemma_bev_off(c, 0, r0, 0, n, x); lemma_bev_off(c, n as int, t, 0, n, x);
        lemma_rot_eval(b, i, x, p);
        let R0 = bev(r0, 0, n, x); let T = bev(t, 0, n, x); let P = pow(x, i); let A = bev(a, 0, i, x);
        lemma_cong_lin(R0, A * E, T, P * E, 1, a[i as int], p);
        let ai = a[i as int];
        assert(1 * (A * E) + ai * (P * E) == (A + ai * P) * E) by(nonlinear_arith);
        assert(0 + j - 1 == i);
    }
}
/// the points satisfy x^n = -1
pub proof fn lemma_pt_neg(o: NttOperator, t: int) requires ntt_wf(o), 0 <= t < o.size, ensures cong(pow(npt(o, t), o.size as nat), -1, o.p.p as int),
{ lemma_nlog(o); assert(1 * o.size == o.size); lemma_point(o, t, o.size as int, 1, nlog(o)); }
/// evaluation at a point turns the negacyclic product into a product
pub proof fn lemma_nmul_eval(o: NttOperator, a: Seq<int>, b: Seq<int>, t: int)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size, 0 <= t < o.size,
    ensures cong(bev(nmul(a, b), 0, o.size as nat, npt(o, t)), bev(a, 0, o.size as nat, npt(o, t)) * bev(b, 0, o.size as nat, npt(o, t)), o.p.p as int),
{
    lemma_pt_neg(o, t); lemma_nmul_eval_upto(a, b, a.len(), npt(o, t), o.p.p as int);
    assert(nmul(a, b) =~= Seq::new(b.len(), |k: int| nmul_coef(a, b, a.len(), k)));
}
/// the t-th point is psi^(2 brv(t) + 1)
pub proof fn lemma_pt_power(o: NttOperator, t: int)
    requires ntt_wf(o), 0 <= t < o.size,
    ensures cong(npt(o, t), pow(npsi(o), 2 * brv(nlog(o), t as nat) + 1), o.p.p as int),
{
    let n = o.size as int; let p = o.p.p as int; let psi = npsi(o); lemma_nlog(o); let L = nlog(o);
    if L == 0 { lemma_pow64(); } let h = (L - 1) as nat; lemma_pow2_unfold(L);
    let i = t / 2;
    lemma_brv_succ(L, h, i as nat); assert(pow2(h) == n / 2);
    assert((pow2(L) - 2 * pow2(h) + i) as nat == i as nat);
    lemma_brv_double(h, i as nat); assert(h + 1 == L);
    let e = brv(h, i as nat); let w = o.omegas@[n / 2 + i] as int;
    assert(cong(w, pow(psi, 2 * e + 1), p));
    assert(t as nat / 2 == i as nat);
    assert(0 * pow2(h) == 0 && 1 * pow2(h) == pow2(h));
    if t % 2 == 0 { assert(brv(L, t as nat) == e); }
    else {
        assert(t as nat % 2 == 1);
        assert(brv(L, t as nat) == pow2(h) + e);
        lemma_pow_adds(psi, n as nat, 2 * e + 1);
        assert(2 * (pow2(h) + e) + 1 == n + (2 * e + 1));
        let pn = pow(psi, n as nat);
        assert(cong(pn, -1, p)) by { lemma_small_mod((p - 1) as nat, p as nat); lemma_cong_intro(p - 1, -1, 1, p); }
        lemma_cong_mul(pn, -1, pow(psi, 2 * e + 1), w, p);
        assert((-1) * w == -w);
    }
}

pub open spec fn s_of(i: int, l: int) -> int { i * (2 * l) }
pub proof fn lemma_ok_bounds(p: int, n: int) requires ntt_ok(p, n), p >= 2, ensures p > 2 * n, p > 16,
{
    lemma_fundamental_div_mod(p, 2 * n);
    let q = p / (2 * n);
    assert(p == 2 * n * q + 1); assert(q >= 1) by(nonlinear_arith) requires p == 2 * n * q + 1, p >= 2, n >= 8;
    assert(p > 2 * n) by(nonlinear_arith) requires p == 2 * n * q + 1, q >= 1, n >= 8;
}
pub proof fn lemma_stage_start(o: NttOperator, s: Seq<int>, tgt: Seq<int>)
    requires ntt_wf(o), s.len() == o.size, tgt.len() == o.size, forall|t: int| 0 <= t < o.size ==> #[trigger] tgt[t] == bev(s, 0, o.size as nat, npt(o, t)),
    ensures stage_inv(o, s, o.size as int, 1, tgt),
{
    let n = o.size as int;
    assert forall|t: int| 0 <= t < o.size implies cong(bev(s, (t / n) * n, n as nat, #[trigger] npt(o, t)), tgt[t] * 1, o.p.p as int) by { lemma_basic_div(t, n); assert(0 * n == 0); }
}

pub proof fn lemma_pow60() ensures pow2(60) == 0x1000_0000_0000_0000, forall|k: nat| k < 61 ==> #[trigger] pow2(k) <= 0x1000_0000_0000_0000, forall|k: nat| k >= 60 ==> #[trigger] pow2(k) >= 0x1000_0000_0000_0000,
{
    lemma2_to64(); lemma_pow2_adds(30, 30); assert(0x4000_0000int * 0x4000_0000int == 0x1000_0000_0000_0000int) by(compute);
    assert forall|k: nat| k < 61 implies #[trigger] pow2(k) <= 0x1000_0000_0000_0000 by { lemma_pow2_mono(k, 60); }
    assert forall|k: nat| k >= 60 implies #[trigger] pow2(k) >= 0x1000_0000_0000_0000 by { lemma_pow2_mono(60, k); }
}
pub proof fn lemma_stage_start_b(o: NttOperator, s: Seq<int>)
    requires ntt_wf(o), s.len() == o.size,
    ensures stage_inv(o, s, 1, 1, s),
{
    assert forall|t: int| 0 <= t < o.size implies cong(bev(s, (t / 1) * 1, 1, #[trigger] npt(o, t)), s[t] * 1, o.p.p as int) by {
        let x = npt(o, t); assert(t / 1 == t && t * 1 == t); lemma_pow0(x); assert(bev(s, t, 1, x) == bev(s, t, 0, x) + s[t + 1 - 1] * pow(x, 0)); }
}
pub proof fn lemma_brv_half(k: nat) requires k >= 1, ensures brv(k, (pow2(k) / 2) as nat) == 1, pow2(k) / 2 == pow2((k - 1) as nat),
{
    lemma_pow2_unfold(k); let h = (k - 1) as nat; lemma_pow2_pos(h); lemma_brv_succ(k, h, 0); lemma_brv_zero(k);
    assert((pow2(k) - 2 * pow2(h) + 0) as nat == 0);
}
pub proof fn lemma_pow2_inj(a: nat, b: nat) requires pow2(a) == pow2(b), ensures a == b,
{ if a < b { lemma_pow2_strictly_increases(a, b); } else if b < a { lemma_pow2_strictly_increases(b, a); } }
pub proof fn lemma_inv_pow(x: int, y: int, e: nat, p: int) requires p > 1, (y * x) % p == 1, ensures (pow(y, e) * pow(x, e)) % p == 1, decreases e,
{
    lemma_small_mod(1, p as nat);
    if e == 0 { lemma_pow0(x); lemma_pow0(y); }
    else { let h = (e - 1) as nat; reveal(pow); lemma_inv_pow(x, y, h, p);
        let a = pow(y, h); let b = pow(x, h);
        assert((y * a) * (x * b) == (y * x) * (a * b)) by(nonlinear_arith);
        lemma_cong_mul(y * x, 1, a * b, 1, p); }
}
// ---- the properties, as consequences of the contracts of forward and backward
pub open spec fn fwd_post(o: NttOperator, a: Seq<u64>, f: Seq<u64>) -> bool {
    f.len() == o.size && forall|t: int| 0 <= t < o.size ==> (#[trigger] f[t]) < o.p.p && f[t] as int == bev(ints(a), 0, o.size as nat, npt(o, t)) % (o.p.p as int)
}
pub open spec fn bwd_post(o: NttOperator, f: Seq<u64>, b: Seq<u64>) -> bool {
    b.len() == o.size && (forall|t: int| 0 <= t < o.size ==> (#[trigger] b[t]) < o.p.p)
    && forall|t: int| 0 <= t < o.size ==> cong(bev(ints(b), 0, o.size as nat, #[trigger] npt(o, t)), f[t] as int, o.p.p as int)
}
/// backward after forward is the identity on canonical vectors
pub proof fn lemma_ntt_roundtrip(o: NttOperator, a: Seq<u64>, f: Seq<u64>, b: Seq<u64>)
    requires ntt_wf(o), a.len() == o.size, forall|t: int| 0 <= t < o.size ==> #[trigger] a[t] < o.p.p, fwd_post(o, a, f), bwd_post(o, f, b),
    ensures b == a,
{
    assert forall|t: int| 0 <= t < o.size implies cong(bev(ints(b), 0, o.size as nat, #[trigger] npt(o, t)), bev(ints(a), 0, o.size as nat, npt(o, t)), o.p.p as int) by {
        assert(f[t] < o.p.p); lemma_mod_range(bev(ints(a), 0, o.size as nat, npt(o, t)), o.p.p as int); }
    lemma_eval_inj(o, b, a);
}
/// forward after backward is the identity on canonical vectors
pub proof fn lemma_ntt_roundtrip2(o: NttOperator, f: Seq<u64>, b: Seq<u64>, g: Seq<u64>)
    requires ntt_wf(o), f.len() == o.size, forall|t: int| 0 <= t < o.size ==> #[trigger] f[t] < o.p.p, bwd_post(o, f, b), fwd_post(o, b, g),
    ensures g == f,
{
    assert forall|t: int| 0 <= t < o.size implies g[t] == f[t] by { assert(g[t] < o.p.p); assert(cong(bev(ints(b), 0, o.size as nat, npt(o, t)), f[t] as int, o.p.p as int)); lemma_small_mod(f[t] as nat, o.p.p as nat); }
    assert(g =~= f);
}
/// multiplying transforms element-wise and transforming back is the negacyclic product
pub proof fn lemma_ntt_convolution(o: NttOperator, a: Seq<u64>, b: Seq<u64>, fa: Seq<u64>, fb: Seq<u64>, fc: Seq<u64>, c: Seq<u64>)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size, fwd_post(o, a, fa), fwd_post(o, b, fb), fc.len() == o.size,
        forall|t: int| 0 <= t < o.size ==> #[trigger] fc[t] as int == (fa[t] * fb[t]) % (o.p.p as int), bwd_post(o, fc, c),
    ensures forall|k: int| 0 <= k < o.size ==> #[trigger] c[k] as int == nmul(ints(a), ints(b))[k] % (o.p.p as int),
{
    let n = o.size as int; let p = o.p.p as int; let r = nmul(ints(a), ints(b));
    let d = Seq::new(n as nat, |k: int| (r[k] % p) as u64);
    assert forall|k: int| 0 <= k < n implies (#[trigger] d[k]) < p && d[k] as int == r[k] % p by { lemma_mod_range(r[k], p); }
    assert forall|t: int| 0 <= t < n implies cong(bev(ints(c), 0, n as nat, #[trigger] npt(o, t)), bev(ints(d), 0, n as nat, npt(o, t)), p) by {
        let x = npt(o, t); let A = bev(ints(a), 0, n as nat, x); let B = bev(ints(b), 0, n as nat, x);
        lemma_nmul_eval(o, ints(a), ints(b), t);
        assert(fa[t] as int == A % p && fb[t] as int == B % p && fc[t] as int == (fa[t] * fb[t]) % p);
        lemma_mod_range(A, p); lemma_mod_range(B, p); lemma_mod_range(fa[t] * fb[t], p);
        lemma_cong_mul(fa[t] as int, A, fb[t] as int, B, p);
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] ints(d)[0 + k], r[0 + k], p) by { assert(d[k] as int == r[k] % p); lemma_mod_range(r[k], p); }
        lemma_bev_cong(ints(d), r, 0, n as nat, x, x, p);
    }
    lemma_eval_inj(o, c, d);
}
/// the points are distinct powers: 2 brv(t) + 1 runs over the odd exponents below 2n, each once
pub proof fn lemma_brv_inj(k: nat, x: nat, y: nat) requires x < pow2(k), y < pow2(k), brv(k, x) == brv(k, y), ensures x == y, decreases k,
{
    if k == 0 { lemma_pow64(); }
    else {
        let h = (k - 1) as nat; lemma_pow2_unfold(k); lemma_brv_bound(h, x / 2); lemma_brv_bound(h, y / 2);
        assert((x % 2) * pow2(h) == (if x % 2 == 1 { pow2(h) } else { 0 })) by(nonlinear_arith) requires x % 2 == 0 || x % 2 == 1;
        assert((y % 2) * pow2(h) == (if y % 2 == 1 { pow2(h) } else { 0 })) by(nonlinear_arith) requires y % 2 == 0 || y % 2 == 1;
        lemma_brv_inj(h, x / 2, y / 2);
    }
}
