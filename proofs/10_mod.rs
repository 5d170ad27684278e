// Modular arithmetic: definitions and basic facts.
pub open spec fn B64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn barret(m: Modulus) -> int { m.barret_hi * 0x1_0000_0000_0000_0000 + m.barret_lo }
/// a modulus as produced by the constructor
pub open spec fn mod_wf(m: Modulus) -> bool {
    2 <= m.p < 0x4000_0000_0000_0000 && barret(m) == (0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int) / (m.p as int)
}
pub open spec fn shoup_of(b: int, p: int) -> int { (b * 0x1_0000_0000_0000_0000) / p }
pub open spec fn cong(a: int, b: int, m: int) -> bool { a % m == b % m }
/// a^e mod p with the convention used by the code
pub open spec fn powmod(a: int, e: nat, p: int) -> int { pow(a, e) % p }

pub proof fn lemma_pow64() ensures pow2(64) == 0x1_0000_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000, pow2(62) == 0x4000_0000_0000_0000, pow2(128) == (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat), pow2(0) == 1, pow2(1) == 2,
    pow2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000, pow2(32) == 0x1_0000_0000,
{
    lemma2_to64(); lemma_pow2_adds(64, 64); lemma_pow2_unfold(64); lemma_pow2_unfold(63); lemma_pow2_adds(63, 64);
    assert(0x8000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == 0x8000_0000_0000_0000_0000_0000_0000_0000int) by(compute);
}

/// a == b + k m  ==>  a % m == b % m
pub proof fn lemma_cong_intro(a: int, b: int, k: int, m: int)
    requires m > 0, a == b + k * m,
    ensures a % m == b % m,
{
    assert(k * m == m * k) by(nonlinear_arith);
    lemma_mod_multiples_vanish(k, b, m);
}
/// a % m == b % m  ==>  a == b + ((a-b)/m) m
pub proof fn lemma_cong_elim(a: int, b: int, m: int) -> (k: int)
    requires m > 0, a % m == b % m,
    ensures a == b + k * m,
{
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m);
    let k = a / m - b / m;
    assert(k * m == m * (a / m) - m * (b / m)) by(nonlinear_arith) requires k == a / m - b / m;
    k
}
pub proof fn lemma_cong_add(a: int, b: int, c: int, d: int, m: int)
    requires m > 0, a % m == b % m, c % m == d % m,
    ensures (a + c) % m == (b + d) % m, (a - c) % m == (b - d) % m,
{
    let k = lemma_cong_elim(a, b, m); let l = lemma_cong_elim(c, d, m);
    assert((k + l) * m == k * m + l * m) by(nonlinear_arith);
    assert((k - l) * m == k * m - l * m) by(nonlinear_arith);
    lemma_cong_intro(a + c, b + d, k + l, m); lemma_cong_intro(a - c, b - d, k - l, m);
}
pub proof fn lemma_cong_mul(a: int, b: int, c: int, d: int, m: int)
    requires m > 0, a % m == b % m, c % m == d % m,
    ensures (a * c) % m == (b * d) % m,
{
    let k = lemma_cong_elim(a, b, m); let l = lemma_cong_elim(c, d, m);
    // a c - b d == (a - b) c + b (c - d)
    assert(a * c == b * c + (k * c) * m) by(nonlinear_arith) requires a == b + k * m;
    assert(b * c == b * d + (b * l) * m) by(nonlinear_arith) requires c == d + l * m;
    lemma_cong_intro(a * c, b * c, k * c, m); lemma_cong_intro(b * c, b * d, b * l, m);
}
/// the representative in [0, m) is unique
pub proof fn lemma_canon(a: int, b: int, m: int)
    requires m > 0, a % m == b % m, 0 <= a < m,
    ensures a == b % m,
{ lemma_small_mod(a as nat, m as nat); }
pub proof fn lemma_mod_range(a: int, m: int) requires m > 0, ensures 0 <= a % m < m, (a % m) % m == a % m,
{ lemma_mod_bound(a, m); lemma_small_mod((a % m) as nat, m as nat); }
/// a in [0, 2m): one conditional subtraction
pub proof fn lemma_mod_once(a: int, m: int) requires m > 0, 0 <= a < 2 * m, ensures a % m == (if a < m { a } else { a - m }),
{
    if a < m { lemma_small_mod(a as nat, m as nat); } else { lemma_small_mod((a - m) as nat, m as nat); lemma_cong_intro(a, a - m, 1, m); }
}
pub proof fn lemma_div_bounds(x: int, d: int) requires d > 0, ensures (x / d) * d <= x, x < (x / d) * d + d, x >= 0 ==> x / d >= 0,
{ lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d); assert((x / d) * d == d * (x / d)) by(nonlinear_arith); if x >= 0 { lemma_div_pos_is_pos(x, d); } }

/// Barrett: q = floor(a floor(b2/p) / b2) gives a - q p in [0, 2p)
pub proof fn lemma_barrett(a: int, p: int, r: int, b2: int)
    requires p > 0, b2 > 0, 0 <= a <= b2, r == b2 / p,
    ensures 0 <= a - (a * r / b2) * p < 2 * p, r >= 0, a * r / b2 >= 0,
{
    let q = a * r / b2;
    lemma_div_bounds(b2, p); lemma_div_bounds(a * r, b2);
    assert(a * r >= 0) by(nonlinear_arith) requires a >= 0, r >= 0;
    assert(a * (r * p) <= a * b2) by(nonlinear_arith) requires a >= 0, r * p <= b2;
    assert((q * b2) * p <= (a * r) * p) by(nonlinear_arith) requires q * b2 <= a * r, p > 0;
    assert((a * r) * p == a * (r * p)) by(nonlinear_arith);
    assert((q * b2) * p == (q * p) * b2) by(nonlinear_arith);
    assert(q * p <= a) by(nonlinear_arith) requires (q * p) * b2 <= a * b2, b2 > 0;
    assert(a * (b2 - p) <= a * (r * p)) by(nonlinear_arith) requires a >= 0, b2 < r * p + p;
    assert((a * r) * p < (q * b2 + b2) * p) by(nonlinear_arith) requires a * r < q * b2 + b2, p > 0;
    assert((q * b2 + b2) * p == (q * p) * b2 + b2 * p) by(nonlinear_arith);
    assert(a * (b2 - p) == a * b2 - a * p) by(nonlinear_arith);
    assert(a * p <= b2 * p) by(nonlinear_arith) requires a <= b2, p > 0;
    assert((a - q * p) * b2 == a * b2 - (q * p) * b2) by(nonlinear_arith);
    assert(a - q * p < 2 * p) by(nonlinear_arith) requires (a - q * p) * b2 < 2 * (b2 * p), b2 > 0;
}
/// Shoup: q = floor(a floor(b B / p) / B) gives a b - q p in [0, 2p)
pub proof fn lemma_shoup(a: int, b: int, p: int, bs: int, bb: int)
    requires p > 0, bb > 0, 0 <= a <= bb, 0 <= b < p, bs == b * bb / p,
    ensures 0 <= a * b - (a * bs / bb) * p < 2 * p, 0 <= bs < bb, a * bs / bb >= 0,
{
    let q = a * bs / bb;
    assert(b * bb >= 0) by(nonlinear_arith) requires b >= 0, bb > 0;
    lemma_div_bounds(b * bb, p); lemma_div_bounds(a * bs, bb);
    assert(bs < bb) by(nonlinear_arith) requires bs * p <= b * bb, b < p, bb > 0, p > 0;
    assert(a * bs >= 0) by(nonlinear_arith) requires a >= 0, bs >= 0;
    assert(a * (bs * p) <= a * (b * bb)) by(nonlinear_arith) requires a >= 0, bs * p <= b * bb;
    assert((q * bb) * p <= (a * bs) * p) by(nonlinear_arith) requires q * bb <= a * bs, p > 0;
    assert((a * bs) * p == a * (bs * p)) by(nonlinear_arith);
    assert((q * bb) * p == (q * p) * bb) by(nonlinear_arith);
    assert(a * (b * bb) == (a * b) * bb) by(nonlinear_arith);
    assert(q * p <= a * b) by(nonlinear_arith) requires (q * p) * bb <= (a * b) * bb, bb > 0;
    assert(a * (b * bb - p) <= a * (bs * p)) by(nonlinear_arith) requires a >= 0, b * bb < bs * p + p;
    assert((a * bs) * p < (q * bb + bb) * p) by(nonlinear_arith) requires a * bs < q * bb + bb, p > 0;
    assert((q * bb + bb) * p == (q * p) * bb + bb * p) by(nonlinear_arith);
    assert(a * (b * bb - p) == (a * b) * bb - a * p) by(nonlinear_arith);
    assert(a * p <= bb * p) by(nonlinear_arith) requires a <= bb, p > 0;
    assert((a * b - q * p) * bb == (a * b) * bb - (q * p) * bb) by(nonlinear_arith);
    assert(a * b - q * p < 2 * p) by(nonlinear_arith) requires (a * b - q * p) * bb < 2 * (bb * p), bb > 0;
}
/// floor((h*B + l) / B) style facts used by the word-level Barrett code
pub proof fn lemma_div_split(h: int, x: int, d: int) requires d > 0, ensures (h * d + x) / d == h + x / d,
{ lemma_div_multiples_vanish_fancy_or(h, x, d); }
pub proof fn lemma_div_multiples_vanish_fancy_or(h: int, x: int, d: int) requires d > 0, ensures (h * d + x) / d == h + x / d,
{
    lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d);
    assert(h * d + x == d * (h + x / d) + x % d) by(nonlinear_arith) requires x == d * (x / d) + x % d;
    lemma_fundamental_div_mod_converse(h * d + x, d, h + x / d, x % d);
}
/// floor(floor(x / d) / d) == floor(x / d^2)
pub proof fn lemma_div_div(x: int, d: int, e: int) requires d > 0, e > 0, x >= 0, ensures (x / d) / e == x / (d * e), d * e > 0,
{ lemma_div_denominator(x, d, e); assert(d * e > 0) by(nonlinear_arith) requires d > 0, e > 0; }

pub proof fn lemma_powmod_step(a: int, e: nat, p: int)
    requires p > 0,
    ensures ((pow(a, e) % p) * (pow(a, e) % p)) % p == pow(a, 2 * e) % p, ((pow(a, e) % p) * a) % p == pow(a, (e + 1) as nat) % p,
{
    lemma_pow_adds(a, e, e); lemma_pow_adds(a, e, 1); lemma_pow1(a);
    lemma_mod_range(pow(a, e), p);
    lemma_cong_mul(pow(a, e) % p, pow(a, e), pow(a, e) % p, pow(a, e), p);
    lemma_cong_mul(pow(a, e) % p, pow(a, e), a, a, p);
}
pub proof fn lemma_pow2_strict(n: nat) ensures forall|k: nat| k > n ==> #[trigger] pow2(k) > pow2(n), forall|k: nat| k < n ==> #[trigger] pow2(k) < pow2(n),
{
    assert forall|k: nat| k > n implies #[trigger] pow2(k) > pow2(n) by { lemma_pow2_strictly_increases(n, k); }
    assert forall|k: nat| k < n implies #[trigger] pow2(k) < pow2(n) by { lemma_pow2_strictly_increases(k, n); }
}
/// r in [2^k, 2^(k+1)) shifted right by k is 1
pub proof fn lemma_shift_one(r: int, k: nat) requires r >= 0, ensures (pow2(k) <= r < 2 * pow2(k)) ==> r / pow2(k) as int == 1,
{
    lemma_pow2_pos(k);
    if pow2(k) <= r < 2 * pow2(k) { lemma_fundamental_div_mod_converse(r, pow2(k) as int, 1, r - pow2(k)); }
}
pub proof fn lemma_shift_step(r: int, k: nat) requires r >= 0,
    ensures r / pow2(k) as int == 2 * (r / pow2(k + 1) as int) + (r / pow2(k) as int) % 2,
{
    lemma_pow2_pos(k); lemma_pow2_unfold(k + 1);
    assert(pow2(k + 1) == pow2(k) * 2);
    lemma_div_div(r, pow2(k) as int, 2);
    lemma_fundamental_div_mod(r / pow2(k) as int, 2);
}
/// the leading bit of r
pub proof fn lemma_pow_lz(r: u64) requires r >= 2,
    ensures forall|l: u32| #[trigger] has_lz(r as nat, 64, l as int) ==> l <= 62 && pow2((63 - l) as nat) * 2 == pow2((64 - l) as nat),
{
    assert forall|l: u32| #[trigger] has_lz(r as nat, 64, l as int) implies l <= 62 && pow2((63 - l) as nat) * 2 == pow2((64 - l) as nat) by {
        lemma_pow2_unfold((64 - l) as nat); lemma_pow64();
        if l == 63 { assert(pow2(1) == 2); }
    }
}
