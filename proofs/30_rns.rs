// Residue number systems: products of distinct primes, CRT.
pub open spec fn prodq(s: Seq<u64>, n: nat) -> int decreases n { if n == 0 { 1 } else { prodq(s, (n - 1) as nat) * s[n - 1] } }
/// the product without factor i
pub open spec fn prodx(s: Seq<u64>, n: nat, i: int) -> int decreases n { if n == 0 { 1 } else if n - 1 == i { prodx(s, (n - 1) as nat, i) } else { prodx(s, (n - 1) as nat, i) * s[n - 1] } }
pub open spec fn distinct_primes(s: Seq<u64>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> is_prime(#[trigger] s[i] as nat) && s[i] < 0x4000_0000_0000_0000) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j])
}
/// value of a residue vector against coefficients c: sum of x_i c_i
pub open spec fn bigs(s: Seq<BigU>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].v() as int) }
pub open spec fn dot(x: Seq<int>, c: Seq<int>, n: nat) -> int decreases n { if n == 0 { 0 } else { dot(x, c, (n - 1) as nat) + x[n - 1] * c[n - 1] } }
pub open spec fn rns_wf(c: RnsContext) -> bool {
    &&& c.moduli_u64.len() >= 1 && c.moduli.len() == c.moduli_u64.len() && c.garner.len() == c.moduli_u64.len()
    &&& distinct_primes(c.moduli_u64@)
    &&& forall|i: int| 0 <= i < c.moduli.len() ==> mod_wf(#[trigger] c.moduli@[i]) && c.moduli@[i].p == c.moduli_u64@[i]
    &&& c.product.v() == prodq(c.moduli_u64@, c.moduli_u64.len() as nat) && c.product_dig.v() == c.product.v()
    &&& c.q_star.len() == c.moduli_u64.len() && c.q_tilde.len() == c.moduli_u64.len()
    &&& forall|i: int| 0 <= i < c.q_star.len() ==> (#[trigger] c.q_star@[i]).v() == prodx(c.moduli_u64@, c.moduli_u64.len() as nat, i)
    &&& forall|i: int| 0 <= i < c.q_tilde.len() ==> (#[trigger] c.q_tilde@[i]) < c.moduli_u64@[i] && (c.q_tilde@[i] * prodx(c.moduli_u64@, c.moduli_u64.len() as nat, i)) % (c.moduli_u64@[i] as int) == 1
    &&& forall|i: int| 0 <= i < c.garner.len() ==> (#[trigger] c.garner@[i]).v() == c.q_star@[i].v() * c.q_tilde@[i]
}
pub proof fn lemma_prodq_pos(s: Seq<u64>, n: nat) requires n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0, ensures prodq(s, n) > 0, decreases n,
{ if n > 0 { lemma_prodq_pos(s, (n - 1) as nat); let a = prodq(s, (n - 1) as nat); let b = s[n - 1] as int; assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; } }
pub proof fn lemma_prodx(s: Seq<u64>, n: nat, i: int) requires n <= s.len(), ensures i >= n || i < 0 ==> prodx(s, n, i) == prodq(s, n), 0 <= i < n ==> prodq(s, n) == prodx(s, n, i) * s[i], decreases n,
{
    if n > 0 {
        let h = (n - 1) as nat; lemma_prodx(s, h, i);
        if 0 <= i < h { let a = prodx(s, h, i); let b = s[i] as int; let c = s[h as int] as int; assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
    }
}
pub proof fn lemma_prodx_pos(s: Seq<u64>, n: nat, i: int) requires n <= s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] > 0, ensures prodx(s, n, i) > 0, decreases n,
{ if n > 0 { let h = (n - 1) as nat; lemma_prodx_pos(s, h, i); let a = prodx(s, h, i); let b = s[n - 1] as int; assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; } }
/// every other modulus divides the product without factor i
pub proof fn lemma_prodx_zero(s: Seq<u64>, n: nat, i: int, j: int)
    requires n <= s.len(), 0 <= j < n, i != j, s[j] > 0, ensures prodx(s, n, i) % (s[j] as int) == 0, decreases n,
{
    let h = (n - 1) as nat; let a = prodx(s, h, i); let b = s[n - 1] as int; let q = s[j] as int;
    if j == h { assert(a * b == 0 + a * q); lemma_cong_intro(a * b, 0, a, q); lemma_small_mod(0, q as nat); }
    else { lemma_prodx_zero(s, h, i, j); if h != i { lemma_small_mod(0, q as nat); lemma_cong_mul(a, 0, b, b, q); assert(0 * b == 0); } }
}
pub proof fn lemma_distinct_primes_coprime(p: nat, q: nat) requires is_prime(p), is_prime(q), p != q, ensures p % q != 0,
{
    if p % q == 0 { if q < p { assert(p % q != 0); } else { lemma_small_mod(p, q); } }
}
pub proof fn lemma_prodx_unit(s: Seq<u64>, n: nat, i: int)
    requires distinct_primes(s), n <= s.len(), 0 <= i < s.len(), ensures prodx(s, n, i) % (s[i] as int) != 0, decreases n,
{
    let q = s[i] as int;
    if n == 0 { lemma_small_mod(1, q as nat); }
    else {
        let h = (n - 1) as nat; lemma_prodx_unit(s, h, i);
        if h != i {
            let a = prodx(s, h, i); let b = s[n - 1] as int;
            assert(s[h as int] != s[i]) by { if h < i { assert(s[h as int] != s[i]); } else { assert(s[i] != s[h as int]); } }
            lemma_distinct_primes_coprime(b as nat, q as nat);
            if (a * b) % q == 0 { lemma_euclid(a, b, q); }
        }
    }
}
/// an inverse modulo a prime exists
pub proof fn lemma_inv_exists(a: int, p: int) requires is_prime(p as nat), p >= 2, a >= 0, a % p != 0, ensures exists|x: nat| (#[trigger] (x * a)) % p == 1,
{
    let c = a % p; lemma_mod_range(a, p); lemma_fermat(c, p);
    let x = pow(c, (p - 2) as nat) % p; lemma_inv_from_fermat(c, x, p);
    lemma_mod_range(c, p); lemma_cong_mul(x, x, c, a, p); lemma_mod_range(pow(c, (p - 2) as nat), p);
    assert(((x as nat) * a) % p == 1);
}
pub proof fn lemma_dot_mod(x: Seq<int>, c: Seq<int>, n: nat, j: int, q: int)
    requires q >= 2, n <= x.len(), n <= c.len(), forall|i: int| 0 <= i < n && i != j ==> #[trigger] c[i] % q == 0, 0 <= j < n ==> c[j] % q == 1,
    ensures dot(x, c, n) % q == (if 0 <= j < n { x[j] % q } else { 0 }), decreases n,
{
    lemma_small_mod(0, q as nat); lemma_small_mod(1, q as nat);
    if n > 0 {
        let h = (n - 1) as nat; lemma_dot_mod(x, c, h, j, q);
        let a = dot(x, c, h); let y = x[n - 1]; let g = c[n - 1];
        if h == j { lemma_cong_mul(y, y, g, 1, q); lemma_cong_add(a, 0, y * g, y, q); }
        else { assert(c[h as int] % q == 0); lemma_cong_mul(y, y, g, 0, q); assert(y * 0 == 0); if 0 <= j < h { lemma_cong_add(a, x[j], y * g, 0, q); } else { lemma_cong_add(a, 0, y * g, 0, q); } }
    }
}
pub proof fn lemma_dot_nonneg(x: Seq<int>, c: Seq<int>, n: nat) requires n <= x.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> #[trigger] x[i] >= 0, forall|i: int| 0 <= i < n ==> #[trigger] c[i] >= 0, ensures dot(x, c, n) >= 0, decreases n,
{ if n > 0 { lemma_dot_nonneg(x, c, (n - 1) as nat); let a = x[n - 1]; let b = c[n - 1]; assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; } }
/// CRT: equal residues modulo distinct primes give equal residues modulo the product
pub proof fn lemma_crt(s: Seq<u64>, n: nat, a: int, b: int)
    requires distinct_primes(s), n <= s.len(), forall|i: int| 0 <= i < n ==> a % (#[trigger] s[i] as int) == b % (s[i] as int),
    ensures prodq(s, n) > 0, a % prodq(s, n) == b % prodq(s, n), decreases n,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { assert(is_prime(s[i] as nat)); }
    lemma_prodq_pos(s, n);
    if n > 0 {
        let h = (n - 1) as nat; lemma_crt(s, h, a, b);
        let P = prodq(s, h); let q = s[h as int] as int;
        let k = lemma_cong_elim(a, b, P);
        let d = lemma_cong_elim(a, b, q);
        assert(k * P == d * q) by { assert(a - b == k * P); }
        lemma_cong_intro(k * P, 0, d, q); lemma_small_mod(0, q as nat);
        lemma_euclid(k, P, q);
        if P % q == 0 { lemma_prodx(s, h, h as int); lemma_prodx_unit(s, h, h as int); }
        let m = lemma_cong_elim(k, 0, q);
        assert(a == b + m * (P * q)) by(nonlinear_arith) requires a == b + k * P, k == 0 + m * q;
        lemma_cong_intro(a, b, m, P * q);
    } else { assert(prodq(s, 0) == 1); }
}
/// residue modulo the product determines residue modulo each factor
pub proof fn lemma_mod_factor(s: Seq<u64>, n: nat, a: int, j: int)
    requires n <= s.len(), 0 <= j < n, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0,
    ensures prodq(s, n) > 0, (a % prodq(s, n)) % (s[j] as int) == a % (s[j] as int),
{
    lemma_prodq_pos(s, n); lemma_prodx(s, n, j); let Q = prodq(s, n); let q = s[j] as int; let X = prodx(s, n, j);
    lemma_fundamental_div_mod(a, Q);
    assert(a == a % Q + ((a / Q) * X) * q) by(nonlinear_arith) requires a == Q * (a / Q) + a % Q, Q == X * q;
    lemma_cong_intro(a, a % Q, (a / Q) * X, q);
}
pub proof fn lemma_garner(c: RnsContext, i: int, j: int)
    requires rns_wf(c), 0 <= i < c.garner.len(), 0 <= j < c.garner.len(),
    ensures c.garner@[i].v() as int % (c.moduli_u64@[j] as int) == (if i == j { 1int } else { 0 }), c.garner@[i].v() < c.product.v(),
{
    let s = c.moduli_u64@; let n = s.len(); let X = prodx(s, n, i); let t = c.q_tilde@[i] as int; let q = s[j] as int;
    assert(is_prime(s[j] as nat)); assert(is_prime(s[i] as nat));
    assert(c.garner@[i].v() == X * t);
    assert(X * t == t * X) by(nonlinear_arith);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] > 0 by { assert(is_prime(s[k] as nat)); }
    if i != j { lemma_prodx_zero(s, n, i, j); lemma_small_mod(0, q as nat); lemma_cong_mul(X, 0, t, t, q); assert(0 * t == 0); }
    lemma_prodx(s, n, i); lemma_prodx_pos(s, n, i);
    assert(X * t < X * s[i]) by(nonlinear_arith) requires X > 0, t < s[i];
}
/// the integer in [0, Q) a residue vector stands for
pub open spec fn rns_val(c: RnsContext, x: Seq<u64>) -> int { dot(ints(x), bigs(c.garner@), c.garner.len() as nat) % (c.product.v() as int) }
pub proof fn lemma_rns_val(c: RnsContext, x: Seq<u64>)
    requires rns_wf(c), x.len() >= c.garner.len(),
    ensures 0 <= rns_val(c, x) < c.product.v(), forall|j: int| 0 <= j < c.garner.len() ==> rns_val(c, x) % (#[trigger] c.moduli_u64@[j] as int) == x[j] as int % (c.moduli_u64@[j] as int),
{
    let s = c.moduli_u64@; let n = s.len();
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] > 0 by { assert(is_prime(s[k] as nat)); }
    lemma_prodq_pos(s, n);
    let S = dot(ints(x), bigs(c.garner@), n);
    lemma_mod_range(S, c.product.v() as int);
    assert forall|j: int| 0 <= j < c.garner.len() implies rns_val(c, x) % (#[trigger] c.moduli_u64@[j] as int) == x[j] as int % (c.moduli_u64@[j] as int) by {
        let q = s[j] as int; assert(is_prime(s[j] as nat));
        assert forall|i: int| 0 <= i < n && i != j implies #[trigger] bigs(c.garner@)[i] % q == 0 by { lemma_garner(c, i, j); }
        lemma_garner(c, j, j);
        lemma_dot_mod(ints(x), bigs(c.garner@), n, j, q);
        lemma_mod_factor(s, n, S, j);
    }
}
/// lift after project is reduction, project after lift is the identity
pub proof fn lemma_rns_unique(c: RnsContext, x: Seq<u64>, v: int)
    requires rns_wf(c), x.len() == c.garner.len(), forall|j: int| 0 <= j < x.len() ==> #[trigger] x[j] as int == v % (c.moduli_u64@[j] as int),
    ensures rns_val(c, x) == v % (c.product.v() as int),
{
    let s = c.moduli_u64@; let n = s.len(); lemma_rns_val(c, x);
    assert forall|i: int| 0 <= i < n implies rns_val(c, x) % (#[trigger] s[i] as int) == v % (s[i] as int) by { assert(is_prime(s[i] as nat)); assert(x[i] as int == v % (s[i] as int)); lemma_mod_range(v, s[i] as int); }
    lemma_crt(s, n, rns_val(c, x), v);
    lemma_small_mod(rns_val(c, x) as nat, c.product.v());
}
