// Plaintext slots: positions of the slots in the transform, encoding and decoding.
pub proof fn lemma_pow3_odd(d: nat) ensures pow(3, d) % 8 == (if d % 2 == 0 { 1int } else { 3 }), pow(3, d) > 0, decreases d,
{
    if d == 0 { lemma_pow0(3); } else { let h = (d - 1) as nat; lemma_pow3_odd(h); lemma_pow_unfold(3, d); let x = pow(3, h); assert(pow(3, d) == 3 * x); assert((3 * x) % 8 == (3 * (x % 8)) % 8); }
}
proof fn lemma_pow_unfold(b: int, d: nat) requires d > 0, ensures pow(b, d) == b * pow(b, (d - 1) as nat), { reveal(pow); }
/// 3^d = 1 modulo 2^k only when 2^(k-2) divides d
pub proof fn lemma_ord3(k: nat, d: nat) requires k >= 3, (pow(3, d) - 1) % (pow2(k) as int) == 0, ensures d as int % (pow2((k - 2) as nat) as int) == 0, decreases k,
{
    lemma2_to64(); lemma_pow3_odd(d); let x = pow(3, d); lemma_pow2_mono(3, k); lemma_pow2_pos(k);
    lemma_pow2_adds(3, (k - 3) as nat); lemma_pow2_pos((k - 3) as nat); assert(8 * pow2((k - 3) as nat) == pow2(k)); lemma_mod_mod(x - 1, 8, pow2((k - 3) as nat) as int); assert((x - 1) % 8 == 0);
    assert(d % 2 == 0); let e = d / 2; assert(pow2(1) == 2);
    if k > 3 {
        lemma_pow_adds(3, e, e); let y = pow(3, e); lemma_pow3_odd(e); assert(x == y * y); assert(x - 1 == (y - 1) * (y + 1)) by(nonlinear_arith) requires x == y * y;
        let h = (k - 1) as nat; lemma_pow2_unfold(k); let H = pow2(h) as int; lemma_pow2_pos(h);
        let c = (x - 1) / (2 * H); lemma_fundamental_div_mod(x - 1, 2 * H); assert(x - 1 == 2 * (H * c)) by(nonlinear_arith) requires x - 1 == (2 * H) * c;
        if e % 2 == 1 {
            // (y-1)(y+1) is 8 times an odd number
            let u = y / 8; assert(y == 8 * u + 3); lemma_pow2_adds(3, (h - 3) as nat); lemma_pow2_pos((h - 3) as nat); let G = pow2((h - 3) as nat) as int; assert(H == 8 * G);
            assert((y - 1) * (y + 1) == 8 * ((4 * u + 1) * (2 * u + 1))) by(nonlinear_arith) requires y == 8 * u + 3;
            let w = (4 * u + 1) * (2 * u + 1); assert(w == 2 * (4 * (u * u) + 3 * u) + 1) by(nonlinear_arith) requires w == (4 * u + 1) * (2 * u + 1);
            assert(H * c == 8 * (G * c)) by(nonlinear_arith) requires H == 8 * G; assert(false);
        }
        let u = y / 8; assert(y == 8 * u + 1); let o = 4 * u + 1; assert((y - 1) * (y + 1) == 2 * ((y - 1) * o)) by(nonlinear_arith) requires y == 8 * u + 1, o == 4 * u + 1;
        assert((y - 1) * o == H * c); assert((y - 1) * o == c * H + 0) by(nonlinear_arith) requires (y - 1) * o == H * c; lemma_fundamental_div_mod_converse((y - 1) * o, H, c, 0);
        lemma_pow2_odd_factor(h, y - 1, o); lemma_ord3(h, e);
        let K = pow2((k - 3) as nat) as int; lemma_pow2_unfold((k - 2) as nat); assert(pow2((k - 2) as nat) == 2 * K); lemma_fundamental_div_mod(e as int, K); let f = e as int / K;
        assert(d == f * (2 * K) + 0) by(nonlinear_arith) requires d == 2 * e, e == K * f; lemma_fundamental_div_mod_converse(d as int, 2 * K, f, 0);
    }
}
/// 3^(2^(k-2)) = 1 modulo 2^k
pub proof fn lemma_cycle3(k: nat) requires k >= 3, ensures (pow(3, pow2((k - 2) as nat)) - 1) % (pow2(k) as int) == 0, decreases k,
{
    lemma2_to64(); lemma_pow2_pos(k);
    if k == 3 { lemma_pow3_odd(2); assert(pow2(1) == 2 && pow2(3) == 8); }
    else {
        let h = (k - 1) as nat; lemma_cycle3(h); let E = pow2((k - 3) as nat); lemma_pow2_unfold((k - 2) as nat); assert(pow2((k - 2) as nat) == E + E); lemma_pow_adds(3, E, E); let y = pow(3, E); let H = pow2(h) as int; lemma_pow2_pos(h); lemma_pow2_unfold(k); 
        lemma_fundamental_div_mod(y - 1, H); let c = (y - 1) / H; assert(y == H * c + 1);
        lemma_pow2_unfold(h); let G = pow2((h - 1) as nat) as int; assert(H == 2 * G);
        let r = G * (c * c) + c; assert(y * y - 1 == r * (2 * H) + 0) by(nonlinear_arith) requires y == H * c + 1, H == 2 * G, r == G * (c * c) + c;
        lemma_fundamental_div_mod_converse(y * y - 1, 2 * H, r, 0);
    }
}
/// index (odd exponent) of slot i
pub open spec fn slot_exp(n: int, i: int) -> int { if i < n / 2 { pow3(n, i) } else { 2 * n - pow3(n, i - n / 2) } }
pub open spec fn map_ok(m: Seq<usize>, L: nat, n: int) -> bool { L >= 3 && L < 61 && n == pow2(L) && m.len() == n && forall|i: int| 0 <= i < n / 2 ==> map_at(m, L, n, i) }
pub proof fn lemma_slot_exp(n: int, L: nat, i: int) requires L >= 3, n == pow2(L), 0 <= i < n, ensures 0 < slot_exp(n, i) < 2 * n, slot_exp(n, i) % 2 == 1,
{ lemma_pow2_unfold(L); let r = if i < n / 2 { i } else { i - n / 2 }; lemma_pow3(n, r as nat); }
proof fn lemma_pow3_mod8(n: int, L: nat, i: nat) requires L >= 3, n == pow2(L), ensures pow3(n, i as int) % 8 == 1 || pow3(n, i as int) % 8 == 3, (2 * n) % 8 == 0,
{ lemma_pow2_adds(3, (L - 2) as nat); lemma2_to64(); lemma_pow2_unfold((L + 1) as nat); lemma_pow2_pos((L - 2) as nat); assert(2 * n == 8 * pow2((L - 2) as nat)); lemma_mod_mod(pow(3, i), 8, pow2((L - 2) as nat) as int); lemma_pow3_odd(i); }
proof fn lemma_pow3_inj(n: int, L: nat, i: nat, j: nat) requires L >= 3, n == pow2(L), i < n / 2, j < n / 2, i < j, pow3(n, i as int) == pow3(n, j as int), ensures false,
{
    let M = 2 * n; let d = (j - i) as nat; lemma_pow_adds(3, i, d); let x = pow(3, i); let y = pow(3, d); assert(pow(3, j) == x * y); lemma_pow3_odd(i);
    lemma_pow2_unfold((L + 1) as nat); assert(M == pow2((L + 1) as nat)); let c = lemma_cong_elim(x * y, x, M);
    assert((y - 1) * x == c * M + 0) by(nonlinear_arith) requires x * y == x + c * M; lemma_fundamental_div_mod_converse((y - 1) * x, M, c, 0);
    assert(x % 2 == 1); lemma_pow2_odd_factor((L + 1) as nat, y - 1, x); lemma_ord3((L + 1) as nat, d); lemma_pow2_unfold(L); assert(pow2((L - 1) as nat) == n / 2); lemma_small_mod(d, (n / 2) as nat);
}
pub proof fn lemma_slot_exp_inj(n: int, L: nat, i: int, j: int) requires L >= 3, n == pow2(L), 0 <= i < n, 0 <= j < n, slot_exp(n, i) == slot_exp(n, j), ensures i == j,
{
    lemma_pow2_unfold(L); let h = n / 2; let a = if i < h { i } else { i - h }; let b = if j < h { j } else { j - h }; lemma_pow3_mod8(n, L, a as nat); lemma_pow3_mod8(n, L, b as nat);
    if (i < h) == (j < h) { if a < b { lemma_pow3_inj(n, L, a as nat, b as nat); } else if b < a { lemma_pow3_inj(n, L, b as nat, a as nat); } }
    else { let u = pow3(n, a); let v = pow3(n, b); assert(u + v == 2 * n); assert((u + v) % 8 == ((u % 8) + (v % 8)) % 8); }
}
/// the position of slot i in the transform
pub proof fn lemma_map(m: Seq<usize>, L: nat, n: int, i: int) requires map_ok(m, L, n), 0 <= i < n, ensures m[i] == brv(L, ((slot_exp(n, i) - 1) / 2) as nat), m[i] < n, brv(L, m[i] as nat) == (slot_exp(n, i) - 1) / 2,
{ lemma_slot_exp(n, L, i); lemma_pow2_unfold(L); let a = if i < n / 2 { i } else { i - n / 2 }; assert(map_at(m, L, n, a)); lemma_brv_invol(L, ((slot_exp(n, i) - 1) / 2) as nat); }
pub proof fn lemma_map_inj(m: Seq<usize>, L: nat, n: int, i: int, j: int) requires map_ok(m, L, n), 0 <= i < n, 0 <= j < n, m[i] == m[j], ensures i == j,
{ lemma_map(m, L, n, i); lemma_map(m, L, n, j); lemma_slot_exp(n, L, i); lemma_slot_exp(n, L, j); let x = slot_exp(n, i); let y = slot_exp(n, j); assert(x == 2 * ((x - 1) / 2) + 1); lemma_slot_exp_inj(n, L, i, j); }
/// content of slot i of the plaintext with coefficients z
pub open spec fn slot(o: NttOperator, m: Seq<usize>, z: Seq<int>, i: int) -> int { bev(z, 0, o.size as nat, npt(o, m[i] as int)) % (o.p.p as int) }
/// ... which is its value at psi^(3^i), or psi^(-3^i) in the second row
pub proof fn lemma_slot_is(o: NttOperator, m: Seq<usize>, z: Seq<int>, i: int)
    requires ntt_wf(o), map_ok(m, nlog(o), o.size as int), 0 <= i < o.size, z.len() == o.size, ensures slot(o, m, z, i) == bev(z, 0, o.size as nat, pow(npsi(o), slot_exp(o.size as int, i) as nat)) % (o.p.p as int),
{
    let n = o.size as nat; let L = nlog(o); lemma_map(m, L, n as int, i); let t = m[i] as int; lemma_pt_power(o, t); lemma_slot_exp(n as int, L, i); let e = slot_exp(n as int, i); assert(e == 2 * ((e - 1) / 2) + 1);
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] z[0 + k], z[0 + k], o.p.p as int) by { }
    lemma_bev_cong(z, z, 0, n, npt(o, t), pow(npsi(o), e as nat), o.p.p as int);
}
/// slots multiply
pub proof fn lemma_slot_mul(o: NttOperator, m: Seq<usize>, a: Seq<int>, b: Seq<int>, i: int)
    requires ntt_wf(o), map_ok(m, nlog(o), o.size as int), 0 <= i < o.size, a.len() == o.size, b.len() == o.size, ensures slot(o, m, nmul(a, b), i) == (slot(o, m, a, i) * slot(o, m, b, i)) % (o.p.p as int),
{
    lemma_map(m, nlog(o), o.size as int, i); let t = m[i] as int; lemma_nmul_eval(o, a, b, t); let p = o.p.p as int; let x = bev(a, 0, o.size as nat, npt(o, t)); let y = bev(b, 0, o.size as nat, npt(o, t));
    lemma_mod_twice(x, p); lemma_mod_twice(y, p); lemma_cong_mul(x % p, x, y % p, y, p);
}
/// slots add
pub proof fn lemma_slot_add(o: NttOperator, m: Seq<usize>, a: Seq<int>, b: Seq<int>, i: int)
    requires ntt_wf(o), map_ok(m, nlog(o), o.size as int), 0 <= i < o.size, a.len() == o.size, b.len() == o.size, ensures slot(o, m, zadd(a, b), i) == (slot(o, m, a, i) + slot(o, m, b, i)) % (o.p.p as int),
{
    let t = m[i] as int; let p = o.p.p as int; let n = o.size as nat; let q = npt(o, t); let x = bev(a, 0, n, q); let y = bev(b, 0, n, q); let ab = a + b; let s = zadd(a, b);
    lemma_bev_off(ab, 0, a, 0, n, q); lemma_bev_off(ab, n as int, b, 0, n, q);
    assert forall|j: int| 0 <= j < n implies cong(#[trigger] s[0 + j], 1 * ab[0 + j] + 1 * ab[n + j], p) by { assert(ab[j] == a[j] && ab[n + j] == b[j]); }
    lemma_bev_lin(s, 0, ab, 0, 1, n as int, 1, n, q, p); lemma_mod_twice(x, p); lemma_mod_twice(y, p); lemma_cong_add(x % p, x, y % p, y, p);
}
/// coefficients count modulo t only
pub proof fn lemma_slot_mod(o: NttOperator, m: Seq<usize>, a: Seq<int>, b: Seq<int>, i: int)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size, forall|k: int| 0 <= k < a.len() ==> cong(#[trigger] a[k], b[k], o.p.p as int), ensures slot(o, m, a, i) == slot(o, m, b, i),
{
    let q = npt(o, m[i] as int); assert forall|k: int| 0 <= k < a.len() implies cong(#[trigger] a[0 + k], b[0 + k], o.p.p as int) by { assert(cong(a[k], b[k], o.p.p as int)); } lemma_bev_cong(a, b, 0, o.size as nat, q, q, o.p.p as int);
}
/// slot that X -> X^(3^r) moves into slot i: rows rotate by r
pub open spec fn rot_src(n: int, r: int, i: int) -> int { let h = n / 2; if i < h { (i + r) % h } else { h + (i - h + r) % h } }
proof fn lemma_pow3_add(n: int, L: nat, i: nat, r: nat) requires L >= 3, n == pow2(L), ensures pow3(n, ((i + r) as int) % (n / 2)) == (pow3(n, i as int) * pow3(n, r as int)) % (2 * n), 0 <= ((i + r) as int) % (n / 2) < n / 2,
{
    lemma_pow2_unfold(L); lemma_pow2_pos((L - 1) as nat); let h = n / 2; let M = 2 * n; let s = (i + r) as int; lemma_mod_range(s, h); let u = (s % h) as nat; let v = (s / h) as nat; lemma_fundamental_div_mod(s, h); lemma_div_bounds(s, h);
    lemma_pow_adds(3, i, r); let x = pow(3, i); let y = pow(3, r); lemma_pow2_unfold((L + 1) as nat); lemma_cycle3((L + 1) as nat); assert(pow2((L - 1) as nat) == h); 
    let c = pow(3, h as nat); let cc = lemma_zero_mod(c - 1, M); lemma_cong_intro(c, 1, cc, M); lemma_pow_cong(c, 1, v, M); lemma1_pow(v); lemma_pow_multiplies(3, h as nat, v); assert(h * v == s - u);
    lemma_pow_adds(3, u, (h * v) as nat); let z = pow(3, (h * v) as nat); let w = pow(3, u); assert(pow(3, (i + r) as nat) == w * z) by { assert((u + (h * v) as nat) as nat == i + r); }
    lemma_cong_mul(w, w, z, 1, M); lemma_mod_twice(x, M); lemma_mod_twice(y, M); lemma_cong_mul(x % M, x, y % M, y, M);
}
proof fn lemma_zero_mod(x: int, m: int) -> (c: int) requires m > 0, x % m == 0, ensures x == c * m, { lemma_fundamental_div_mod(x, m); let c = x / m; assert(m * c == c * m) by(nonlinear_arith); c }
proof fn lemma1_pow(v: nat) ensures pow(1, v) == 1, decreases v, { if v == 0 { lemma_pow0(1); } else { lemma_pow_unfold(1, v); lemma1_pow((v - 1) as nat); } }
/// substituting X^(3^r) rotates each row of slots by r
pub proof fn lemma_slot_rot(o: NttOperator, m: Seq<usize>, z: Seq<int>, r: nat, i: int)
    requires ntt_wf(o), map_ok(m, nlog(o), o.size as int), 0 <= i < o.size, z.len() == o.size,
    ensures slot(o, m, nsubst(z, pow3(o.size as int, r as int)), i) == slot(o, m, z, rot_src(o.size as int, r as int, i)), 0 <= rot_src(o.size as int, r as int, i) < o.size,
{
    let n = o.size as int; let L = nlog(o); let p = o.p.p as int; lemma_pow2_unfold(L); lemma_pow2_pos((L - 1) as nat); let h = n / 2; let M = 2 * n; let e = pow3(n, r as int); lemma_pow3(n, r); let j = rot_src(n, r as int, i); let a = if i < h { i } else { i - h };
    lemma_pow3_add(n, L, a as nat, r); lemma_sub_len(z, e, n, n as nat); lemma_slot_is(o, m, nsubst(z, e), i); lemma_slot_is(o, m, z, j);
    let f = slot_exp(n, i); let g = slot_exp(n, j); lemma_slot_exp(n, L, i); lemma_slot_exp(n, L, j); let psi = npsi(o);
    // f e = g modulo 2n
    let pa = pow3(n, a); let pj = pow3(n, (a + r) as int % h); assert(pj == (pa * e) % M); lemma_fundamental_div_mod(pa * e, M); let d0 = (pa * e) / M; lemma_pow3(n, a as nat); assert(pa * e >= 0) by(nonlinear_arith) requires pa > 0, e > 0; lemma_div_bounds(pa * e, M);
    let d = if i < h { d0 } else { e - 1 - d0 };
    if i < h { assert(f * e == g + M * d); }
    else { assert(f == M - pa && g == M - pj); assert(f * e == M * e - pa * e) by(nonlinear_arith) requires f == M - pa; assert(M * (e - 1 - d0) == M * e - M - M * d0) by(nonlinear_arith); assert(f * e == g + M * d); }
    assert(f * e > 0) by(nonlinear_arith) requires f > 0, e > 0; assert(d >= 0) by(nonlinear_arith) requires f * e == g + M * d, f * e > 0, 0 < g < M, M > 0;
    let x = pow(psi, f as nat); lemma_pow_multiplies(psi, f as nat, e as nat); assert(M * d == 2 * (n * d)) by(nonlinear_arith) requires M == 2 * n; lemma_pow_full(psi, g as nat, n as nat, d as nat, p);
    assert((f as nat * e as nat) as nat == (g as nat + 2 * (n as nat * d as nat)) as nat);
    // psi^f is a root of X^n + 1
    lemma_map(m, L, n, i); let t = m[i] as int; lemma_pt_power(o, t); lemma_pt_neg(o, t); assert(f == 2 * ((f - 1) / 2) + 1); lemma_pow_cong(npt(o, t), x, n as nat, p);
    lemma_sub_eval(z, e, L, n as nat, x, p);
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] z[0 + k], z[0 + k], p) by { }
    lemma_bev_cong(z, z, 0, n as nat, pow(x, e as nat), pow(psi, g as nat), p);
}
// ---- encoding and decoding
pub open spec fn pt_map(p: BfvParameters) -> Seq<usize> { p.matrix_reps_index_map@ }
pub open spec fn pt_op(p: BfvParameters) -> NttOperator { p.pt_ntt.unwrap() }
pub proof fn lemma_map_ok(p: BfvParameters) requires bfv_wf(p), ensures map_ok(pt_map(p), nlog(pt_op(p)), p.degree as int), ntt_wf(pt_op(p)), pt_op(p).size == p.degree,
{ let o = pt_op(p); lemma_nlog(o); let c = *p.pt_ctx; lemma_ctx(c, 0); lemma_clog(c, 0); lemma_pow2_inj(clog(c), nlog(o)); }
/// the encoded coefficients c stand for the values v
pub open spec fn encodes(p: BfvParameters, enc: Encoding, v: Seq<u64>, c: Seq<u64>) -> bool {
    c.len() == p.degree && match enc {
        Encoding::Poly => v.len() <= p.degree && forall|k: int| 0 <= k < p.degree ==> #[trigger] c[k] == (if k < v.len() { v[k] } else { 0 }),
        Encoding::SIMD => v.len() >= p.degree && (forall|k: int| 0 <= k < p.degree ==> #[trigger] c[k] < p.plaintext_modulus_u64) && forall|i: int| 0 <= i < p.degree ==> #[trigger] slot(pt_op(p), pt_map(p), ints(c), i) == v[i],
        Encoding::None => false,
    }
}
/// the values v read from the coefficients c
pub open spec fn decodes(p: BfvParameters, enc: Encoding, c: Seq<u64>, v: Seq<u64>) -> bool {
    v.len() == p.degree && match enc { Encoding::Poly => v == c, Encoding::SIMD => forall|i: int| 0 <= i < p.degree ==> #[trigger] v[i] == slot(pt_op(p), pt_map(p), ints(c), i), Encoding::None => false }
}
/// decoding an encoded vector returns it, zero-padded
pub proof fn lemma_decode_encode(p: BfvParameters, enc: Encoding, v: Seq<u64>, c: Seq<u64>, w: Seq<u64>)
    requires encodes(p, enc, v, c), decodes(p, enc, c, w), ensures w.len() == p.degree, forall|k: int| 0 <= k < p.degree ==> #[trigger] w[k] == (if k < v.len() { v[k] } else { 0 }),
{ assert forall|k: int| 0 <= k < p.degree implies #[trigger] w[k] == (if k < v.len() { v[k] } else { 0 }) by { if enc == Encoding::SIMD { assert(slot(pt_op(p), pt_map(p), ints(c), k) == v[k]); } } }
