// Number theory about primes.
// Fermat's little theorem, through the binomial theorem
spec fn binom(n: nat, k: nat) -> nat decreases n { if k == 0 { 1 } else if n == 0 { 0 } else { binom((n - 1) as nat, (k - 1) as nat) + binom((n - 1) as nat, k) } }
proof fn lemma_binom_zero(n: nat, k: nat) requires k > n, ensures binom(n, k) == 0, decreases n,
{ if n > 0 { lemma_binom_zero((n - 1) as nat, k); lemma_binom_zero((n - 1) as nat, (k - 1) as nat); } }
proof fn lemma_binom_one(n: nat) ensures binom(n, n) == 1, decreases n,
{ if n > 0 { lemma_binom_one((n - 1) as nat); lemma_binom_zero((n - 1) as nat, n); } }
// k C(n,k) == n C(n-1,k-1)
proof fn lemma_binom_absorb(n: nat, k: nat) requires n >= 1, k >= 1, ensures k * binom(n, k) == n * binom((n - 1) as nat, (k - 1) as nat), decreases n,
{
    let m = (n - 1) as nat; let j = (k - 1) as nat;
    if n == 1 { if k >= 2 { lemma_binom_zero(1, k); lemma_binom_zero(0, j); let z = binom(n, k); assert(k * z == 0) by(nonlinear_arith) requires z == 0; let y = binom(m, j); assert(y == 0); assert(n * y == 0) by(nonlinear_arith) requires y == 0; assert(k * binom(n, k) == n * binom(m, j)); } else { assert(binom(1, 1) == binom(0, 0) + binom(0, 1)); assert(binom(0, 0) == 1); lemma_binom_zero(0, 1); assert(k * binom(n, k) == n * binom(m, j)); } }
    else {
        lemma_binom_absorb(m, k);
        let x = binom(m, k) as int; let y = binom(m, j) as int; let u = binom((m - 1) as nat, j) as int;
        assert(binom(n, k) == binom(m, j) + binom(m, k));
        assert(k * x == m * u);
        if j == 0 { assert(binom(m, 0) == 1 && binom((m - 1) as nat, 0) == 1); assert(k * (x + y) == n * y) by(nonlinear_arith) requires k == 1, y == 1, u == 1, n == m + 1, k * x == m * u; }
        else {
            lemma_binom_absorb(m, j);
            let v = binom((m - 1) as nat, (j - 1) as nat) as int;
            assert(j * y == m * v); assert(y == v + u);
            assert(k * (x + y) == n * y) by(nonlinear_arith) requires k == j + 1, n == m + 1, k * x == m * u, j * y == m * v, y == v + u;
        }
        let bn = binom(n, k) as int; assert(bn == x + y); assert(k * bn == n * y); assert(k * binom(n, k) == n * binom(m, j));
    }
}
spec fn bsum(a: int, n: nat, m: nat) -> int decreases m { if m == 0 { 0 } else { bsum(a, n, (m - 1) as nat) + binom(n, (m - 1) as nat) * pow(a, (m - 1) as nat) } }
proof fn lemma_bsum_step(a: int, n: nat, m: nat) ensures bsum(a, (n + 1) as nat, (m + 1) as nat) == bsum(a, n, (m + 1) as nat) + a * bsum(a, n, m), decreases m,
{
    if m == 0 {
        assert(a * 0 == 0);
        assert(bsum(a, (n + 1) as nat, 1) == bsum(a, (n + 1) as nat, 0) + binom((n + 1) as nat, 0) * pow(a, 0));
        assert(bsum(a, n, 1) == bsum(a, n, 0) + binom(n, 0) * pow(a, 0));
    } else {
        let l = (m - 1) as nat; lemma_bsum_step(a, n, l);
        lemma_pow_adds(a, 1, l); lemma_pow1(a);
        let pm = pow(a, m); let pl = pow(a, l); let c = binom(n, m) as int; let d = binom(n, l) as int;
        assert(binom((n + 1) as nat, m) == c + d);
        assert(bsum(a, (n + 1) as nat, (m + 1) as nat) == bsum(a, (n + 1) as nat, m) + (c + d) * pm);
        assert(bsum(a, n, (m + 1) as nat) == bsum(a, n, m) + c * pm);
        assert(bsum(a, n, m) == bsum(a, n, l) + d * pl);
        let b = bsum(a, n, l);
        assert(a * (b + d * pl) == a * b + d * pm) by(nonlinear_arith) requires pm == a * pl;
        assert((c + d) * pm == c * pm + d * pm) by(nonlinear_arith);
    }
}
proof fn lemma_binomial(a: int, n: nat) ensures bsum(a, n, (n + 1) as nat) == pow(a + 1, n), decreases n,
{
    if n == 0 { lemma_pow0(a); lemma_pow0(a + 1); assert(bsum(a, 0, 1) == bsum(a, 0, 0) + binom(0, 0) * pow(a, 0)); }
    else {
        let m = (n - 1) as nat; lemma_binomial(a, m); lemma_bsum_step(a, m, n); lemma_binom_zero(m, n);
        assert(bsum(a, m, (n + 1) as nat) == bsum(a, m, n) + binom(m, n) * pow(a, n));
        assert(0 * pow(a, n) == 0);
        lemma_pow_adds(a + 1, 1, m); lemma_pow1(a + 1);
        let z = pow(a + 1, m);
        assert(z + a * z == (a + 1) * z) by(nonlinear_arith);
    }
}
proof fn lemma_bsum_mod(a: int, p: int, m: nat) requires is_prime(p as nat), p > 0, 1 <= m <= p, ensures bsum(a, p as nat, m) % p == 1int % p, decreases m,
{
    lemma_pow0(a);
    if m == 1 { assert(bsum(a, p as nat, 1) == bsum(a, p as nat, 0) + binom(p as nat, 0) * pow(a, 0)); }
    else {
        let k = (m - 1) as nat; lemma_bsum_mod(a, p, k); lemma_binom_absorb(p as nat, k);
        let c = binom(p as nat, k) as int; let w = binom((p - 1) as nat, (k - 1) as nat) as int;
        assert(k * c == 0 + w * p) by(nonlinear_arith) requires k * c == p * w;
        lemma_cong_intro(k * c, 0, w, p); lemma_small_mod(0, p as nat); lemma_euclid(k as int, c, p); lemma_small_mod(k, p as nat);
        let j = lemma_cong_elim(c, 0, p);
        let z = pow(a, k);
        assert(bsum(a, p as nat, k) + c * z == bsum(a, p as nat, k) + (j * z) * p) by(nonlinear_arith) requires c == 0 + j * p;
        lemma_cong_intro(bsum(a, p as nat, k) + c * z, bsum(a, p as nat, k), j * z, p);
    }
}
proof fn lemma_fermat_p(a: int, p: int) requires is_prime(p as nat), p > 0, a >= 0, ensures pow(a, p as nat) % p == a % p, decreases a,
{
    if a == 0 { lemma0_pow(p as nat); }
    else {
        let b = a - 1; lemma_fermat_p(b, p); lemma_binomial(b, p as nat); lemma_bsum_mod(b, p, p as nat); lemma_binom_one(p as nat);
        let z = pow(b, p as nat);
        assert(pow(a, p as nat) == bsum(b, p as nat, p as nat) + 1 * z);
        lemma_cong_add(bsum(b, p as nat, p as nat), 1, z, b, p);
    }
}
pub proof fn lemma_fermat(a: int, p: int)
    requires is_prime(p as nat), 0 < a < p,
    ensures pow(a, (p - 1) as nat) % p == 1,
{
    lemma_fermat_p(a, p); lemma_pow_adds(a, 1, (p - 1) as nat); lemma_pow1(a);
    let z = pow(a, (p - 1) as nat);
    let k = lemma_cong_elim(a * z, a, p);
    assert(a * (z - 1) == 0 + k * p) by(nonlinear_arith) requires a * z == a + k * p;
    lemma_cong_intro(a * (z - 1), 0, k, p); lemma_small_mod(0, p as nat); lemma_euclid(a, z - 1, p); lemma_small_mod(a as nat, p as nat);
    let j = lemma_cong_elim(z - 1, 0, p); lemma_cong_intro(z, 1, j, p); lemma_small_mod(1, p as nat);
}
pub proof fn lemma_inv_from_fermat(a: int, r: int, p: int)
    requires p >= 2, 0 < a < p, r == powmod(a, (p - 2) as nat, p), pow(a, (p - 1) as nat) % p == 1,
    ensures (r * a) % p == 1, 0 < r < p,
{
    lemma_powmod_step(a, (p - 2) as nat, p); lemma_mod_range(pow(a, (p - 2) as nat), p);
    if r == 0 { assert(0 * a == 0); lemma_small_mod(0, p as nat); }
}

// ---- Miller-Rabin
pub open spec fn mr_bases() -> Seq<int> { seq![2int, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] }
pub open spec fn mr_base(k: int) -> int { if k == 0 { 2 } else if k == 1 { 3 } else if k == 2 { 5 } else if k == 3 { 7 } else if k == 4 { 11 } else if k == 5 { 13 } else if k == 6 { 17 } else if k == 7 { 19 } else if k == 8 { 23 } else if k == 9 { 29 } else if k == 10 { 31 } else { 37 } }
// n - 1 == d * 2^s with d odd; these are functions of n
pub open spec fn odd_part(n: int) -> int decreases n { if n >= 2 && n % 2 == 0 { odd_part(n / 2) } else { n } }
pub open spec fn two_part(n: int) -> nat decreases n { if n >= 2 && n % 2 == 0 { 1 + two_part(n / 2) } else { 0 } }
pub open spec fn sprp(p: int, b: int) -> bool {
    pow(b, odd_part(p - 1) as nat) % p == 1 || exists|r: nat| r < two_part(p - 1) && pow(b, (odd_part(p - 1) * #[trigger] pow2(r)) as nat) % p == p - 1
}
// Published fact (Sorenson and Webster 2015; OEIS A014233): no composite below 3.3e24 passes the strong test
// for the first 12 primes. Assumed, not proved.
#[verifier::external_body]
pub proof fn lemma_sprp_complete(p: int)
    requires 2 <= p < 0x1_0000_0000_0000_0000, forall|k: int| 0 <= k < 12 ==> p % #[trigger] mr_base(k) != 0 && sprp(p, mr_base(k)),
    ensures is_prime(p as nat),
{ }
pub proof fn lemma_prime_divisor(p: int, b: int)
    requires is_prime(p as nat), p > 0, b >= 2, p % b == 0,
    ensures p == b,
{ if b > p { lemma_small_mod(p as nat, b as nat); } if b < p { assert((p as nat) % (b as nat) != 0); } }
pub proof fn lemma_pow2_mono(a: nat, b: nat) requires a <= b, ensures pow2(a) <= pow2(b), { if a < b { lemma_pow2_strictly_increases(a, b); } }
pub proof fn lemma_sprp_decomp(p: int, d: int, s: nat)
    requires p > 2, d > 0, d % 2 == 1, p - 1 == d * pow2(s),
    ensures odd_part(p - 1) == d, two_part(p - 1) == s,
{ lemma_decomp(d, s); }
proof fn lemma_decomp(d: int, s: nat)
    requires d > 0, d % 2 == 1,
    ensures odd_part(d * pow2(s)) == d, two_part(d * pow2(s)) == s, d * pow2(s) >= 1,
    decreases s,
{
    lemma_pow2_pos(s);
    assert(d * pow2(s) >= 1) by(nonlinear_arith) requires d > 0, pow2(s) > 0;
    if s == 0 { assert(pow2(0) == 1) by { lemma2_to64(); } assert(d * 1 == d); }
    else {
        lemma_decomp(d, (s - 1) as nat); lemma_pow2_unfold(s);
        let h = d * pow2((s - 1) as nat);
        assert(d * pow2(s) == 2 * h) by(nonlinear_arith) requires h == d * pow2((s - 1) as nat), pow2(s) == 2 * pow2((s - 1) as nat);
        assert((2 * h) / 2 == h); assert((2 * h) % 2 == 0);
    }
}
pub proof fn lemma_sprp_at(p: int, b: int, d: int, s: nat)
    requires p > 2, odd_part(p - 1) == d, two_part(p - 1) == s, p % 2 == 1,
    ensures s >= 1, sprp(p, b) == (pow(b, d as nat) % p == 1 || exists|r: nat| r < s && pow(b, (d * #[trigger] pow2(r)) as nat) % p == p - 1),
      (pow(b, d as nat) % p == p - 1) ==> sprp(p, b), pow2(0) == 1, d * pow2(0) == d,
{
    assert(pow2(0) == 1) by { lemma2_to64(); } assert(d * 1 == d);
    assert((p - 1) % 2 == 0);
    assert(two_part(p - 1) == 1 + two_part((p - 1) / 2));
}
pub proof fn lemma_sqmul_step(x: int, w: int, d: nat, p: int)
    requires p > 0, d > 0,
    ensures
        d % 2 == 1 ==> (((x * w) % p) * pow((w * w) % p, (d / 2) as nat)) % p == (x * pow(w, d)) % p,
        d % 2 == 0 ==> (x * pow((w * w) % p, (d / 2) as nat)) % p == (x * pow(w, d)) % p,
{
    let h = (d / 2) as nat;
    lemma_pow_mod_noop(w * w, h, p);
    lemma_pow_multiplies(w, 2, h); lemma_pow2_is_sq(w);
    assert(pow(w * w, h) == pow(w, 2 * h));
    lemma_cong_mul(x, x, pow((w * w) % p, h), pow(w * w, h), p);
    if d % 2 == 1 {
        lemma_mod_range(x * w, p);
        lemma_cong_mul((x * w) % p, x * w, pow((w * w) % p, h), pow(w, 2 * h), p);
        lemma_pow_adds(w, 1, 2 * h); lemma_pow1(w); assert(d == 1 + 2 * h);
        assert((x * w) * pow(w, 2 * h) == x * pow(w, d)) by(nonlinear_arith) requires pow(w, d) == w * pow(w, 2 * h);
    }
}
proof fn lemma_pow2_is_sq(w: int) ensures pow(w, 2) == w * w, { lemma_pow1(w); lemma_pow_adds(w, 1, 1); }
// a prime passes the strong test for every base it does not divide
pub proof fn lemma_prime_sprp(p: int, b: int)
    requires is_prime(p as nat), p > 2, p % 2 == 1, b > 0, b % p != 0,
    ensures sprp(p, b),
{
    let (d, s) = lemma_decomp_of(p - 1);
    lemma_sprp_at(p, b, d, s);
    let a = b % p; lemma_mod_range(b, p);
    lemma_fermat(a, p); lemma_pow_mod_noop(b, (p - 1) as nat, p);
    assert(pow(b, (d * pow2(s)) as nat) % p == 1);
    lemma_sprp_walk(p, b, d, s);
}
proof fn lemma_decomp_of(n: int) -> (r: (int, nat))
    requires n >= 1,
    ensures r.0 == odd_part(n), r.1 == two_part(n), r.0 > 0, n == r.0 * pow2(r.1),
    decreases n,
{
    if n >= 2 && n % 2 == 0 {
        let (d, s) = lemma_decomp_of(n / 2);
        lemma_pow2_unfold((s + 1) as nat);
        assert(n == d * pow2((s + 1) as nat)) by(nonlinear_arith) requires n == 2 * (d * pow2(s)), pow2((s + 1) as nat) == 2 * pow2(s);
        (d, (s + 1) as nat)
    } else { assert(pow2(0) == 1) by { lemma2_to64(); } (n, 0) }
}
proof fn lemma_sprp_walk(p: int, b: int, d: int, s: nat)
    requires is_prime(p as nat), p > 2, d > 0, pow(b, (d * pow2(s)) as nat) % p == 1,
    ensures pow(b, d as nat) % p == 1 || exists|r: nat| r < s && pow(b, (d * #[trigger] pow2(r)) as nat) % p == p - 1,
    decreases s,
{
    if s == 0 { assert(pow2(0) == 1) by { lemma2_to64(); } assert(d * 1 == d); }
    else {
        let q = (s - 1) as nat; lemma_pow2_pos(q); lemma_pow2_unfold(s);
        assert(d * pow2(q) >= 0) by(nonlinear_arith) requires d > 0, pow2(q) > 0;
        let e = (d * pow2(q)) as nat; let y = pow(b, e);
        assert(2 * e == d * pow2(s)) by(nonlinear_arith) requires e == d * pow2(q), pow2(s) == 2 * pow2(q);
        lemma_pow_adds(b, e, e); assert(y * y % p == 1);
        lemma_sqrt_one(y, p);
        if y % p == 1 { lemma_sprp_walk(p, b, d, q); 
            if pow(b, d as nat) % p != 1 { let r = choose|r: nat| r < q && pow(b, (d * #[trigger] pow2(r)) as nat) % p == p - 1; assert(r < s); } }
        else { assert(q < s && pow(b, (d * pow2(q)) as nat) % p == p - 1); }
    }
}
pub proof fn lemma_sqrt_one(y: int, p: int)
    requires is_prime(p as nat), p > 2, (y * y) % p == 1,
    ensures y % p == 1 || y % p == p - 1,
{
    lemma_small_mod(1, p as nat);
    let k = lemma_cong_elim(y * y, 1, p);
    assert((y - 1) * (y + 1) == k * p) by(nonlinear_arith) requires y * y == 1 + k * p;
    lemma_cong_intro((y - 1) * (y + 1), 0, k, p); lemma_small_mod(0, p as nat);
    lemma_euclid(y - 1, y + 1, p);
    if (y - 1) % p == 0 { let j = lemma_cong_elim(y - 1, 0, p); lemma_cong_intro(y, 1, j, p); }
    else { let j = lemma_cong_elim(y + 1, 0, p); assert(y == (p - 1) + (j - 1) * p) by(nonlinear_arith) requires y + 1 == 0 + j * p; lemma_cong_intro(y, p - 1, j - 1, p); lemma_small_mod((p - 1) as nat, p as nat); }
}
// Euclid's lemma, by descent: the least positive multiplier c with c*b divisible by p divides p
pub proof fn lemma_euclid(a: int, b: int, p: int)
    requires is_prime(p as nat), p > 0, (a * b) % p == 0,
    ensures a % p == 0 || b % p == 0,
{
    assert(p > 0);
    if a % p != 0 {
        let c = a % p; lemma_mod_range(a, p);
        lemma_cong_mul(c, a, b, b, p);
        lemma_euclid_descent(c, b, p);
    }
}
proof fn lemma_euclid_descent(c: int, b: int, p: int)
    requires is_prime(p as nat), 0 < c < p, (c * b) % p == 0,
    ensures b % p == 0,
    decreases c,
{
    if c == 1 { assert(1 * b == b); }
    else {
        let q = p / c; let r = p % c; lemma_fundamental_div_mod(p, c); lemma_mod_range(p, c);
        if r == 0 { lemma_prime_divisor(p, c); }
        else {
            let k = lemma_cong_elim(c * b, 0, p);
            assert(r * b == (b - q * k) * p) by(nonlinear_arith) requires p == c * q + r, c * b == 0 + k * p;
            lemma_cong_intro(r * b, 0, b - q * k, p); lemma_small_mod(0, p as nat);
            lemma_euclid_descent(r, b, p);
        }
    }
}
spec fn no_div(n: nat, d: nat) -> bool decreases d { d < 2 || (n % d != 0 && no_div(n, (d - 1) as nat)) }
proof fn lemma_no_div(n: nat, d: nat, e: nat) requires no_div(n, d), 2 <= e <= d, ensures n % e != 0, decreases d, { if e < d { lemma_no_div(n, (d - 1) as nat, e); } }
proof fn lemma_trial(n: nat) requires n >= 2, no_div(n, (n - 1) as nat), ensures is_prime(n),
{ assert forall|d: nat| 2 <= d < n implies #[trigger] (n % d) != 0 by { lemma_no_div(n, (n - 1) as nat, d); } }
pub proof fn lemma_small_primes() ensures forall|k: int| 0 <= k < 12 ==> is_prime(#[trigger] mr_base(k) as nat) && 2 <= mr_base(k),
{
    assert(no_div(2, 1)) by(compute_only); lemma_trial(2);
    assert(no_div(3, 2)) by(compute_only); lemma_trial(3);
    assert(no_div(5, 4)) by(compute_only); lemma_trial(5);
    assert(no_div(7, 6)) by(compute_only); lemma_trial(7);
    assert(no_div(11, 10)) by(compute_only); lemma_trial(11);
    assert(no_div(13, 12)) by(compute_only); lemma_trial(13);
    assert(no_div(17, 16)) by(compute_only); lemma_trial(17);
    assert(no_div(19, 18)) by(compute_only); lemma_trial(19);
    assert(no_div(23, 22)) by(compute_only); lemma_trial(23);
    assert(no_div(29, 28)) by(compute_only); lemma_trial(29);
    assert(no_div(31, 30)) by(compute_only); lemma_trial(31);
    assert(no_div(37, 36)) by(compute_only); lemma_trial(37);
}
