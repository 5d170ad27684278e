// Bits, words and 256-bit integers.
pub open spec fn u256v(x: U256) -> int {
    x.f0 + 0x1_0000_0000_0000_0000 * (x.f1 + 0x1_0000_0000_0000_0000 * (x.f2 + 0x1_0000_0000_0000_0000 * x.f3))
}
pub open spec fn B256() -> int { 0x1_0000_0000_0000_0000int * (0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000)) }
/// bit i of m
pub open spec fn bit(m: int, i: nat) -> int { (m / pow2(i) as int) % 2 }

pub proof fn lemma_shl64(x: u64, k: u64) requires k < 64, ensures (x << k) as int == (x as int * pow2(k as nat) as int) % 0x1_0000_0000_0000_0000,
{ lemma_pow64(); lemma_shl64_a(x, k); }
pub proof fn lemma_shl64_a(x: u64, k: u64) requires k < 64, ensures (x << k) as int == (x as int * pow2(k as nat) as int) % pow2(64) as int,
    decreases k,
{
    lemma_pow64(); lemma_pow2_pos(64);
    if k == 0 {
        assert(pow2(0) == 1) by { lemma2_to64(); }
        assert(x << (0 as u64) == x) by(bit_vector);
        lemma_pow2_pos(64); lemma_small_mod(x as nat, pow2(64));
    } else {
        let j = (k - 1) as u64; lemma_shl64_a(x, j);
        let y = x << (j as u64); let z = x << (k as u64);
        assert(z == y << 1) by(bit_vector) requires y == x << (j as u64), z == x << (k as u64), k == j + 1, k < 64;
        assert(z == (if y < 0x8000_0000_0000_0000 { add(y, y) } else { add(sub(y, 0x8000_0000_0000_0000), sub(y, 0x8000_0000_0000_0000)) })) by(bit_vector) requires z == y << 1;
        assert(y < 0x8000_0000_0000_0000 ==> z == 2 * y) by { if y < 0x8000_0000_0000_0000 { assert(add(y, y) as int == y + y); } }
        assert(y >= 0x8000_0000_0000_0000 ==> z == 2 * y - pow2(64)) by { if y >= 0x8000_0000_0000_0000 { let w = sub(y, 0x8000_0000_0000_0000); assert(w as int == y - 0x8000_0000_0000_0000); assert(add(w, w) as int == w + w); } }
        lemma_pow2_unfold(k as nat);
        let q = pow2(64) as int; let a = x as int * pow2(j as nat) as int;
        assert(x as int * pow2(k as nat) as int == 2 * a) by(nonlinear_arith) requires a == x as int * pow2(j as nat) as int, pow2(k as nat) == 2 * pow2(j as nat);
        lemma_mod_range(a, q); lemma_cong_add(a % q, a, a % q, a, q);
        lemma_cong_intro(z as int, 2 * y as int, (if y < 0x8000_0000_0000_0000 { 0int } else { -1 }), q);
        lemma_small_mod(z as nat, pow2(64));
    }
}

pub proof fn lemma_add_nowrap(a: u64, b: u64) requires add(a, b) >= a, ensures add(a, b) as int == a + b,
{ let s = add(a, b); assert(a as u128 + b as u128 == s as u128) by(bit_vector) requires s == add(a, b), s >= a; }

/// two adjacent words shifted right by r: the low word of the result
pub proof fn lemma_word_shift(lo: u64, hi: u64, r: usize, a: u64, b: u64)
    requires 0 < r < 64, a as int == lo as int / pow2(r as nat) as int, b as int == (hi as int * pow2((64 - r) as nat) as int) % pow2(64) as int,
        a == lo >> (r as u64), b == hi << ((64 - r) as u64),
    ensures (a | b) as int == lo as int / pow2(r as nat) as int + (hi as int % pow2(r as nat) as int) * pow2((64 - r) as nat) as int,
{
    let s = r as u64;
    assert((lo >> s) | (hi << ((64 - s) as u64)) == add(lo >> s, hi << ((64 - s) as u64)) && add(lo >> s, hi << ((64 - s) as u64)) >= (lo >> s)) by(bit_vector) requires 0 < s < 64;
    assert((64 - s) as u64 == (64 - r) as u64);
    assert(a == lo >> s && b == hi << ((64 - s) as u64));
    assert((a | b) == add(a, b) && add(a, b) >= a);
    lemma_add_nowrap(a, b);
    assert((a | b) as int == a + b);
    lemma_pow64();
    let P = pow2(r as nat) as int; let K = pow2((64 - r) as nat) as int;
    lemma_pow2_adds(r as nat, (64 - r) as nat); lemma_pow2_pos(r as nat); lemma_pow2_pos((64 - r) as nat);
    lemma_fundamental_div_mod(hi as int, P); lemma_mod_bound(hi as int, P);
    let q = hi as int / P; let m = hi as int % P;
    assert(hi * K == q * (P * K) + m * K) by(nonlinear_arith) requires hi as int == P * q + m;
    assert(0 <= m * K < P * K) by(nonlinear_arith) requires 0 <= m < P, K > 0;
    lemma_cong_intro(hi * K, m * K, q, P * K);
    lemma_small_mod((m * K) as nat, (P * K) as nat);
}
/// shifting a 256-bit value by less than a word
pub proof fn lemma_shift4(f0: int, f1: int, f2: int, f3: int, r: nat)
    requires 0 < r < 64, 0 <= f0 < B64(), 0 <= f1 < B64(), 0 <= f2 < B64(), 0 <= f3 < B64(),
    ensures ({ let P = pow2(r) as int; let K = pow2((64 - r) as nat) as int;
        (f0 + B64() * (f1 + B64() * (f2 + B64() * f3))) / P == (f0 / P + (f1 % P) * K) + B64() * ((f1 / P + (f2 % P) * K) + B64() * ((f2 / P + (f3 % P) * K) + B64() * (f3 / P))) }),
{
    let P = pow2(r) as int; let K = pow2((64 - r) as nat) as int;
    lemma_pow64(); lemma_pow2_adds(r, (64 - r) as nat); lemma_pow2_pos(r); lemma_pow2_pos((64 - r) as nat);
    lemma_fundamental_div_mod(f0, P); lemma_fundamental_div_mod(f1, P); lemma_fundamental_div_mod(f2, P); lemma_fundamental_div_mod(f3, P);
    lemma_mod_bound(f0, P);
    let w3 = f3 / P; let w2 = f2 / P + (f3 % P) * K; let w1 = f1 / P + (f2 % P) * K; let w0 = f0 / P + (f1 % P) * K;
    lemma_pk(P, K, f0 / P, f1 % P); lemma_pk(P, K, f1 / P, f2 % P); lemma_pk(P, K, f2 / P, f3 % P);
    let W = w0 + B64() * (w1 + B64() * (w2 + B64() * w3));
    let U = f0 + B64() * (f1 + B64() * (f2 + B64() * f3));
    assert(P * W == P * w0 + B64() * (P * w1 + B64() * (P * w2 + B64() * (P * w3)))) by {
        assert(P * (w0 + B64() * (w1 + B64() * (w2 + B64() * w3))) == P * w0 + B64() * (P * (w1 + B64() * (w2 + B64() * w3)))) by(nonlinear_arith);
        assert(P * (w1 + B64() * (w2 + B64() * w3)) == P * w1 + B64() * (P * (w2 + B64() * w3))) by(nonlinear_arith);
        assert(P * (w2 + B64() * w3) == P * w2 + B64() * (P * w3)) by(nonlinear_arith);
    }
    assert(U == P * W + f0 % P);
    lemma_fundamental_div_mod_converse(U, P, W, f0 % P);
}
pub proof fn lemma_pk(P: int, K: int, q: int, m: int) requires P * K == B64(), ensures P * (q + m * K) == P * q + B64() * m,
{
    assert(P * (q + m * K) == P * q + P * (m * K)) by(nonlinear_arith);
    assert(P * (m * K) == (P * K) * m) by(nonlinear_arith);
}
pub proof fn lemma_div_words(f0: int, u: int, r: nat)
    requires 0 <= f0 < B64(), u >= 0, r >= 64,
    ensures (f0 + B64() * u) / pow2(r) as int == u / pow2((r - 64) as nat) as int,
{
    lemma_pow64(); lemma_pow2_adds(64, (r - 64) as nat); lemma_pow2_pos((r - 64) as nat);
    assert(B64() * u == u * B64()) by(nonlinear_arith);
    lemma_div_split(u, f0, B64()); lemma_basic_div(f0, B64());
    lemma_div_div(f0 + B64() * u, B64(), pow2((r - 64) as nat) as int);
}
pub proof fn lemma_div_pow0(x: int) ensures x / pow2(0) as int == x, { lemma_pow64(); }

// ---- single bits
pub proof fn lemma_bit_shift(m: int, i: nat) requires m >= 0, ensures bit(m, i + 1) == bit(m / 2, i), bit(m, 0) == m % 2,
{
    lemma_pow64(); lemma_pow2_unfold(i + 1); lemma_pow2_pos(i);
    lemma_div_div(m, 2, pow2(i) as int);
}
pub proof fn lemma_bit_high(m: int, i: nat, k: nat) requires 0 <= m < pow2(k), i >= k, ensures bit(m, i) == 0,
{
    if i > k { lemma_pow2_strictly_increases(k, i); }
    lemma_basic_div(m, pow2(i) as int);
}
/// m / 2^i % 2^(k+1) == bit(i) + 2 (m / 2^(i+1) % 2^k)
pub proof fn lemma_digit_step(m: int, i: nat, k: nat) requires m >= 0,
    ensures (m / pow2(i) as int) % pow2(k + 1) as int == bit(m, i) + 2 * ((m / pow2(i + 1) as int) % pow2(k) as int),
{
    lemma_pow2_pos(i); lemma_pow2_pos(k); lemma_pow2_unfold(i + 1); lemma_pow2_unfold(k + 1);
    let x = m / pow2(i) as int;
    lemma_div_pos_is_pos(m, pow2(i) as int);
    lemma_div_div(m, pow2(i) as int, 2);
    assert(x / 2 == m / pow2(i + 1) as int);
    lemma_fundamental_div_mod(x, 2); lemma_mod_bound(x, 2);
    lemma_fundamental_div_mod(x / 2, pow2(k) as int); lemma_mod_bound(x / 2, pow2(k) as int);
    let q = (x / 2) / pow2(k) as int; let r = (x / 2) % pow2(k) as int;
    assert(x == 2 * (pow2(k) * q + r) + x % 2);
    assert(2 * (pow2(k) * q) == (2 * pow2(k)) * q) by(nonlinear_arith);
    assert(x == q * pow2(k + 1) + (2 * r + x % 2)) by(nonlinear_arith) requires x == 2 * (pow2(k) * q + r) + x % 2, pow2(k + 1) == 2 * pow2(k);
    lemma_fundamental_div_mod_converse(x, pow2(k + 1) as int, q, 2 * r + x % 2);
}
pub proof fn lemma_popcount_bound(x: nat, k: nat) requires x < pow2(k), ensures popcount(x) <= k, decreases k,
{
    if k == 0 { lemma_pow64(); } else if x > 0 { lemma_pow2_unfold(k); lemma_popcount_bound(x / 2, (k - 1) as nat); }
}
pub proof fn lemma_popcount_shift(x: nat, k: nat) ensures popcount(x * pow2(k)) == popcount(x), decreases k,
{
    if k == 0 { lemma_pow64(); assert(x * pow2(0) == x); }
    else {
        lemma_pow2_unfold(k); lemma_popcount_shift(x, (k - 1) as nat);
        let y = x * pow2((k - 1) as nat);
        assert(x * pow2(k) == 2 * y) by(nonlinear_arith) requires pow2(k) == 2 * pow2((k - 1) as nat), y == x * pow2((k - 1) as nat);
        if y > 0 { assert((2 * y) % 2 == 0); assert((2 * y) / 2 == y); }
    }
}
/// the value a right shift of a 256-bit integer must produce, by number of whole words
pub proof fn lemma_u256_shift(o: U256, r: nat)
    requires r < 256,
    ensures ({
        let u = u256v(o); let f0 = o.f0 as int; let f1 = o.f1 as int; let f2 = o.f2 as int; let f3 = o.f3 as int;
        &&& r == 0 ==> u / pow2(r) as int == u
        &&& 0 < r < 64 ==> ({ let P = pow2(r) as int; let K = pow2((64 - r) as nat) as int;
            u / P == (f0 / P + (f1 % P) * K) + B64() * ((f1 / P + (f2 % P) * K) + B64() * ((f2 / P + (f3 % P) * K) + B64() * (f3 / P))) })
        &&& r == 64 ==> u / pow2(r) as int == f1 + B64() * (f2 + B64() * f3)
        &&& 64 < r < 128 ==> ({ let P = pow2((r - 64) as nat) as int; let K = pow2((64 - (r - 64)) as nat) as int;
            u / pow2(r) as int == (f1 / P + (f2 % P) * K) + B64() * ((f2 / P + (f3 % P) * K) + B64() * (f3 / P)) })
        &&& r == 128 ==> u / pow2(r) as int == f2 + B64() * f3
        &&& 128 < r < 192 ==> ({ let P = pow2((r - 128) as nat) as int; let K = pow2((64 - (r - 128)) as nat) as int;
            u / pow2(r) as int == (f2 / P + (f3 % P) * K) + B64() * (f3 / P) })
        &&& 192 <= r ==> u / pow2(r) as int == f3 / pow2((r - 192) as nat) as int
    }),
{
    let f0 = o.f0 as int; let f1 = o.f1 as int; let f2 = o.f2 as int; let f3 = o.f3 as int;
    lemma_pow64();
    if r == 0 { lemma_div_pow0(u256v(o)); }
    else if r < 64 { lemma_shift4(f0, f1, f2, f3, r); }
    else {
        lemma_div_words(f0, f1 + B64() * (f2 + B64() * f3), r);
        if r == 64 { lemma_div_pow0(f1 + B64() * (f2 + B64() * f3)); }
        else if r < 128 { lemma_shift4(f1, f2, f3, 0, (r - 64) as nat); lemma_zero_div((r - 64) as nat); }
        else {
            lemma_div_words(f1, f2 + B64() * f3, (r - 64) as nat);
            if r == 128 { lemma_div_pow0(f2 + B64() * f3); }
            else if r < 192 { lemma_shift4(f2, f3, 0, 0, (r - 128) as nat); lemma_zero_div((r - 128) as nat); }
            else { lemma_div_words(f2, f3, (r - 128) as nat); }
        }
    }
}
pub proof fn lemma_zero_div(r: nat) ensures 0int / pow2(r) as int == 0, 0int % pow2(r) as int == 0, 0 * pow2((64 - r) as nat) == 0,
{ lemma_pow2_pos(r); lemma_basic_div(0, pow2(r) as int); lemma_small_mod(0, pow2(r)); }

pub open spec fn lz_is(x: u64, l: int) -> bool { 0 < l < 64 && pow2((63 - l) as nat) <= x < pow2((64 - l) as nat) }
/// number of leading zeros and size agree
pub proof fn lemma_lz_all(k: nat) requires 1 <= k < 64,
    ensures forall|x: nat, l: int| #[trigger] has_lz(x, 64, l) ==> (l == 64 - k <==> (pow2((k - 1) as nat) <= x < pow2(k))),
{
    assert forall|x: nat, l: int| #[trigger] has_lz(x, 64, l) implies (l == 64 - k <==> (pow2((k - 1) as nat) <= x < pow2(k))) by {
        lemma_pow2_pos((k - 1) as nat);
        if x > 0 {
            if 64 - l < k { if 64 - l < k - 1 { lemma_pow2_strictly_increases((64 - l) as nat, (k - 1) as nat); } }
            if 64 - l > k { if k < 63 - l { lemma_pow2_strictly_increases(k, (63 - l) as nat); } }
        }
    }
}
/// two numbers congruent modulo m differ by at least m
pub proof fn lemma_ap(q: int, t: int, m: int) requires m > 0, q % m == t % m, q < t, ensures q <= t - m,
{
    let k = lemma_cong_elim(t, q, m);
    assert(k >= 1) by(nonlinear_arith) requires t == q + k * m, q < t, m > 0;
    assert(k * m >= m) by(nonlinear_arith) requires k >= 1, m > 0;
}

// ---- centered binomial sampler: sample i is determined by bits [4vi, 4vi + 4v) of the random stream
pub open spec fn stream(r: VRng, n: nat) -> int decreases n { if n == 0 { 0 } else { stream(r, (n - 1) as nat) + r.word(n - 1) * pow2((64 * (n - 1)) as nat) } }
pub open spec fn cbd_words(v: nat, i: nat) -> nat { ((4 * v * (i + 1) + 63) / 64) as nat }
pub open spec fn window(r: VRng, v: nat, i: nat) -> int { (stream(r, cbd_words(v, i)) / pow2(4 * v * i) as int) % pow2(4 * v) as int }
pub open spec fn cbd_sample(r: VRng, v: nat, i: nat) -> int { popcount((window(r, v, i) % pow2(2 * v) as int) as nat) - popcount((window(r, v, i) / pow2(2 * v) as int) as nat) }
pub open spec fn cbd_mask(v: usize) -> u128 { ((1u128 << ((2 * v) as u128)) - 1u128) as u128 }
pub proof fn lemma_mask_cases(v: usize, pool: u128)
    requires 1 <= v <= 16,
    ensures (pool & ((pow2((2 * v) as nat) - 1) as u128)) as int == pool as int % pow2((2 * v) as nat) as int, pow2((2 * v) as nat) <= 0x1_0000_0000,
        (pool >> ((2 * v) as u128)) as int == pool as int / pow2((2 * v) as nat) as int,
{
    lemma2_to64();
    if v == 1 { assert(pool & 3 == pool % 4 && pool >> 2 == pool / 4) by(bit_vector); }
    else if v == 2 { assert(pool & 0xf == pool % 0x10 && pool >> 4 == pool / 0x10) by(bit_vector); }
    else if v == 3 { assert(pool & 0x3f == pool % 0x40 && pool >> 6 == pool / 0x40) by(bit_vector); }
    else if v == 4 { assert(pool & 0xff == pool % 0x100 && pool >> 8 == pool / 0x100) by(bit_vector); }
    else if v == 5 { assert(pool & 0x3ff == pool % 0x400 && pool >> 10 == pool / 0x400) by(bit_vector); }
    else if v == 6 { assert(pool & 0xfff == pool % 0x1000 && pool >> 12 == pool / 0x1000) by(bit_vector); }
    else if v == 7 { assert(pool & 0x3fff == pool % 0x4000 && pool >> 14 == pool / 0x4000) by(bit_vector); }
    else if v == 8 { assert(pool & 0xffff == pool % 0x10000 && pool >> 16 == pool / 0x10000) by(bit_vector); }
    else if v == 9 { assert(pool & 0x3ffff == pool % 0x40000 && pool >> 18 == pool / 0x40000) by(bit_vector); }
    else if v == 10 { assert(pool & 0xfffff == pool % 0x100000 && pool >> 20 == pool / 0x100000) by(bit_vector); }
    else if v == 11 { assert(pool & 0x3fffff == pool % 0x400000 && pool >> 22 == pool / 0x400000) by(bit_vector); }
    else if v == 12 { assert(pool & 0xffffff == pool % 0x1000000 && pool >> 24 == pool / 0x1000000) by(bit_vector); }
    else if v == 13 { assert(pool & 0x3ffffff == pool % 0x4000000 && pool >> 26 == pool / 0x4000000) by(bit_vector); }
    else if v == 14 { assert(pool & 0xfffffff == pool % 0x10000000 && pool >> 28 == pool / 0x10000000) by(bit_vector); }
    else if v == 15 { assert(pool & 0x3fffffff == pool % 0x40000000 && pool >> 30 == pool / 0x40000000) by(bit_vector); }
    else { assert(v == 16); assert(pool & 0xffffffff == pool % 0x100000000 && pool >> 32 == pool / 0x100000000) by(bit_vector); }
}
/// the two masks of the sampler
pub proof fn lemma_cbd_masks(v: usize)
    requires 1 <= v <= 16,
    ensures ({ let k = (2 * v) as nat;
        &&& (0xffff_ffff_ffff_ffffint / pow2((64 - 4 * v) as nat) as int) / pow2(k) as int == pow2(k) - 1
        &&& ((pow2(k) - 1) * pow2(k)) % pow2(128) as int == (pow2(k) - 1) * pow2(k)
        &&& pow2(k) <= 0x1_0000_0000 }),
{
    let k = (2 * v) as nat;
    lemma_mask_cases(v, 0);
    lemma_pow64(); lemma_pow2_pos(k); lemma_pow2_pos((64 - 4 * v) as nat);
    lemma_pow2_adds((64 - 4 * v) as nat, k); lemma_pow2_adds((64 - 4 * v + 2 * v) as nat, k);
    let m: int = 0xffff_ffff_ffff_ffff;
    lemma_div_div(m, pow2((64 - 4 * v) as nat) as int, pow2(k) as int);
    let d = pow2((64 - 2 * v) as nat) as int;
    assert(pow2((64 - 4 * v) as nat) * pow2(k) == d);
    assert(d * pow2(k) == 0x1_0000_0000_0000_0000);
    assert(m == d * (pow2(k) - 1) + (d - 1)) by(nonlinear_arith) requires d * pow2(k) == m + 1;
    lemma_fundamental_div_mod_converse(m, d, pow2(k) - 1, d - 1);
    assert(0 <= (pow2(k) - 1) * pow2(k) < pow2(128)) by(nonlinear_arith) requires 1 <= pow2(k) <= 0x1_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
    lemma_small_mod(((pow2(k) - 1) * pow2(k)) as nat, pow2(128));
}
pub proof fn lemma_cbd_init(r: VRng, v: nat) ensures stream(r, 0) == 0, 0int / pow2(0) as int == 0, pow2(0) == 1, 4 * v * 0 == 0, { lemma_pow64(); }
/// adding one more random word above the bits still in the pool
pub proof fn lemma_cbd_refill(r: VRng, w: nat, pool: u128, nb: usize, used: nat)
    requires nb < 64, 64 * w == nb + used, pool as int == stream(r, w) / pow2(used) as int, pool < pow2(nb as nat), stream(r, w) >= 0,
    ensures ({ let x = r.word(w as int); let sh = (x as u128) << (nb as u128);
        &&& (pool | sh) as int == stream(r, w + 1) / pow2(used) as int
        &&& (pool | sh) < pow2((nb + 64) as nat) && stream(r, w + 1) >= 0 }),
{
    let x = r.word(w as int); let sh = (x as u128) << (nb as u128);
    lemma_pow64(); lemma_pow2_pos(nb as nat); lemma_pow2_pos(used); lemma_pow2_adds(nb as nat, 64); lemma_pow2_adds(nb as nat, used);
    if nb < 63 { lemma_pow2_strictly_increases(nb as nat, 63); }
    let P = pow2(nb as nat);
    assert(x as u128 <= 0xffff_ffff_ffff_ffff);
    let nbu = nb as u128;
    lemma_shl128(x as u128, nb);
    assert(0 <= x * P < 0x1_0000_0000_0000_0000 * P) by(nonlinear_arith) requires 0 <= x < 0x1_0000_0000_0000_0000, P > 0;
    assert(0x1_0000_0000_0000_0000 * P < pow2(128)) by(nonlinear_arith) requires P <= 0x8000_0000_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
    lemma_small_mod((x * P) as nat, pow2(128));
    assert(sh as int == x * P);
    lemma_shl128(1, nb); lemma_small_mod(P, pow2(128));
    assert(P == (1u128 << nbu));
    assert(pool < (1u128 << nbu) && nbu < 64 ==> (pool | ((x as u128) << nbu)) == add(pool, ((x as u128) << nbu)) && add(pool, (x as u128) << nbu) >= pool) by(bit_vector);
    assert((pool | sh) as int == pool + x * P);
    assert(pool + x * P < P * 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires pool < P, 0 <= x <= 0xffff_ffff_ffff_ffff, P > 0;
    assert(x * pow2((64 * w) as nat) == (x * P) * pow2(used)) by(nonlinear_arith) requires pow2((64 * w) as nat) == P * pow2(used);
    assert(stream(r, w + 1) == stream(r, w) + x * pow2((64 * w) as nat));
    lemma_div_split(x * P, stream(r, w), pow2(used) as int);
    assert(x * pow2((64 * w) as nat) >= 0) by(nonlinear_arith) requires x >= 0;
}
pub proof fn lemma_shl128(x: u128, k: usize) requires k < 128, ensures (x << (k as u128)) as int == (x as int * pow2(k as nat) as int) % pow2(128) as int,
    decreases k,
{
    lemma_pow64(); lemma_pow2_pos(128);
    if k == 0 {
        assert(pow2(0) == 1) by { lemma2_to64(); }
        assert(x << (0 as u128) == x) by(bit_vector);
        lemma_pow2_pos(128); lemma_small_mod(x as nat, pow2(128));
    } else {
        let j = (k - 1) as usize; lemma_shl128(x, j);
        let y = x << (j as u128); let z = x << (k as u128);
        assert(z == y << 1) by(bit_vector) requires y == x << (j as u128), z == x << (k as u128), k == j + 1, k < 128;
        assert(z == (if y < 0x8000_0000_0000_0000_0000_0000_0000_0000 { add(y, y) } else { add(sub(y, 0x8000_0000_0000_0000_0000_0000_0000_0000), sub(y, 0x8000_0000_0000_0000_0000_0000_0000_0000)) })) by(bit_vector) requires z == y << 1;
        assert(y < 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> z == 2 * y) by { if y < 0x8000_0000_0000_0000_0000_0000_0000_0000 { assert(add(y, y) as int == y + y); } }
        assert(y >= 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> z == 2 * y - pow2(128)) by { if y >= 0x8000_0000_0000_0000_0000_0000_0000_0000 { let w = sub(y, 0x8000_0000_0000_0000_0000_0000_0000_0000); assert(w as int == y - 0x8000_0000_0000_0000_0000_0000_0000_0000); assert(add(w, w) as int == w + w); } }
        lemma_pow2_unfold(k as nat);
        let q = pow2(128) as int; let a = x as int * pow2(j as nat) as int;
        assert(x as int * pow2(k as nat) as int == 2 * a) by(nonlinear_arith) requires a == x as int * pow2(j as nat) as int, pow2(k as nat) == 2 * pow2(j as nat);
        lemma_mod_range(a, q); lemma_cong_add(a % q, a, a % q, a, q);
        lemma_cong_intro(z as int, 2 * y as int, (if y < 0x8000_0000_0000_0000_0000_0000_0000_0000 { 0int } else { -1 }), q);
        lemma_small_mod(z as nat, pow2(128));
    }
}
pub proof fn lemma_stream_pos(r: VRng, w: nat) ensures stream(r, w) >= 0, decreases w,
{
    if w > 0 { lemma_stream_pos(r, (w - 1) as nat); let x = r.word(w - 1); let q = pow2((64 * (w - 1)) as nat); assert(x * q >= 0) by(nonlinear_arith) requires x >= 0, q >= 0; }
}
/// taking the next 4v bits off the pool
pub proof fn lemma_cbd_take(r: VRng, w: nat, v: usize, i: nat)
    requires 1 <= v <= 16, 4 * v * (i + 1) <= 64 * w < 4 * v * (i + 1) + 64,
    ensures
        w == cbd_words(v as nat, i),
        forall|pool: u128, m: u128| pool as int == stream(r, w) / pow2((4 * v * i) as nat) as int && m == pow2((2 * v) as nat) - 1 ==> popcount(#[trigger] (pool & m) as nat) == popcount((window(r, v as nat, i) % pow2((2 * v) as nat) as int) as nat),
        forall|pool: u128, m: u128| pool as int == stream(r, w) / pow2((4 * v * i) as nat) as int && m == (pow2((2 * v) as nat) - 1) * pow2((2 * v) as nat) ==> popcount(#[trigger] (pool & m) as nat) == popcount((window(r, v as nat, i) / pow2((2 * v) as nat) as int) as nat),
        popcount((window(r, v as nat, i) % pow2((2 * v) as nat) as int) as nat) <= 2 * v,
        popcount((window(r, v as nat, i) / pow2((2 * v) as nat) as int) as nat) <= 2 * v,
        (stream(r, w) / pow2((4 * v * i) as nat) as int) / pow2((4 * v) as nat) as int == stream(r, w) / pow2((4 * v * (i + 1)) as nat) as int,
        stream(r, w) >= 0,
{
    let k = (2 * v) as nat; let P = pow2(k) as int; let n4 = (4 * v) as nat;
    lemma_stream_pos(r, w); lemma_pow2_pos(k); lemma_pow2_pos(n4); lemma_pow2_pos((4 * v * i) as nat); lemma_pow2_adds(k, k);
    assert(4 * v * (i + 1) == 4 * v * i + 4 * v) by(nonlinear_arith);
    let t = 4 * v * (i + 1);
    assert((t + 63) / 64 == w) by { lemma_fundamental_div_mod_converse(t + 63, 64, w as int, t + 63 - 64 * w); }
    let x = stream(r, w) / pow2((4 * v * i) as nat) as int;
    lemma_div_pos_is_pos(stream(r, w), pow2((4 * v * i) as nat) as int);
    lemma_pow2_adds((4 * v * i) as nat, n4);
    lemma_div_div(stream(r, w), pow2((4 * v * i) as nat) as int, pow2(n4) as int);
    let win = window(r, v as nat, i);
    assert(win == x % (P * P));
    // win % P == x % P and win / P == (x / P) % P
    lemma_fundamental_div_mod(x, P * P); lemma_mod_bound(x, P * P);
    let q = x / (P * P);
    assert((P * P) * q == (P * q) * P) by(nonlinear_arith);
    lemma_cong_intro(x, win, P * q, P);
    lemma_div_split(P * q, win, P);
    assert(x / P == P * q + win / P);
    lemma_div_bounds(win, P);
    assert(win / P < P) by(nonlinear_arith) requires (win / P) * P <= win, win < P * P, P > 0;
    assert(P * q == q * P) by(nonlinear_arith);
    lemma_cong_intro(x / P, win / P, q, P); lemma_small_mod((win / P) as nat, P as nat);
    lemma_mod_bound(win, P);
    lemma_popcount_bound((win % P) as nat, k); lemma_popcount_bound((win / P) as nat, k);
    assert forall|pool: u128, m: u128| pool as int == x && m == P - 1 implies popcount(#[trigger] (pool & m) as nat) == popcount((win % P) as nat) by { lemma_mask_cases(v, pool); }
    assert forall|pool: u128, m: u128| pool as int == x && m == (P - 1) * P implies popcount(#[trigger] (pool & m) as nat) == popcount((win / P) as nat) by {
        lemma_mask_cases(v, pool); let ku = (2 * v) as u128; let y = pool >> ku; lemma_mask_cases(v, y);
        let low = (P - 1) as u128;
        lemma_pow64(); lemma_shl128(low, (2 * v) as usize);
        assert(0 <= (P - 1) * P < pow2(128)) by(nonlinear_arith) requires 1 <= P <= 0x1_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
        lemma_small_mod(((P - 1) * P) as nat, pow2(128));
        assert(((2 * v) as usize) as u128 == ku);
        assert(m == low << ku);
        assert(pool & (low << ku) == ((pool >> ku) & low) << ku) by(bit_vector) requires ku <= 32;
        let z = y & low;
        assert(z as int == win / P);
        lemma_shl128(z, (2 * v) as usize);
        assert(0 <= z * P < pow2(128)) by(nonlinear_arith) requires 0 <= z < P, 1 <= P <= 0x1_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
        lemma_small_mod((z * P) as nat, pow2(128));
        lemma_popcount_shift(z as nat, k);
    }
}
pub proof fn lemma_div_small(x: int, a: nat, b: nat) requires 0 <= x < pow2(a + b), ensures 0 <= x / pow2(a) as int, (x / pow2(a) as int) < pow2(b),
{
    lemma_pow2_adds(a, b); lemma_pow2_pos(a); lemma_div_bounds(x, pow2(a) as int);
    let q = x / pow2(a) as int;
    assert(q < pow2(b)) by(nonlinear_arith) requires q * pow2(a) <= x, x < pow2(a) * pow2(b), pow2(a) > 0;
}
