== rns::RnsContext::new
requires
    moduli_u64.len() >= 1, distinct_primes(moduli_u64@),
ensures
    rns_wf(ret), ret.moduli_u64@ == moduli_u64@,
entry
    let ghost s = moduli_u64@; let ghost K = s.len();
    proof { lemma_pow64(); assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] >= 2 by { assert(is_prime(s[k] as nat)); } }
inv 0
    $n == K, $out.len() == $i, forall|k: int| 0 <= k < $i ==> mod_wf(#[trigger] $out@[k]) && $out@[k].p == s[k],
inv 1
    $n == K, $acc.v() == prodq(s, $i as nat),
begin 1
    proof { assert(prodq(s, ($i + 1) as nat) == prodq(s, $i as nat) * s[$i as int]); }
inv 2
    $n == K, $acc.v() == prodq(s, $i as nat),
begin 2
    proof { assert(prodq(s, ($i + 1) as nat) == prodq(s, $i as nat) * s[$i as int]); }
inv 3
    $n == K, $out.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $out@[k]).v() == prodx(s, K, k),
begin 3
    proof { lemma_prodx(s, K, $i as int); lemma_prodx_pos(s, K, $i as int); lemma_div_multiples_vanish(prodx(s, K, $i as int), s[$i as int] as int); 
      assert(prodx(s, K, $i as int) * s[$i as int] == s[$i as int] * prodx(s, K, $i as int)) by(nonlinear_arith); }
inv 4
    $n == K, $out.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $out@[k]) < s[k] && ($out@[k] * prodx(s, K, k)) % (s[k] as int) == 1,
begin 4
    proof { let X = prodx(s, K, $i as int); let q = s[$i as int] as int;
      lemma_prodx(s, K, $i as int); lemma_prodx_pos(s, K, $i as int); lemma_div_multiples_vanish(X, q); assert(X * q == q * X) by(nonlinear_arith);
      lemma_prodx_unit(s, K, $i as int); lemma_inv_exists(X, q);
      let x = choose|x: nat| (#[trigger] (x * X)) % q == 1; assert((x * (X as nat)) % (q as nat) == 1); }
inv 5
    $n == K, $out.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $out@[k]).v() == q_star@[k].v() * q_tilde@[k],

== rns::RnsContext::project
requires
    rns_wf(*this),
ensures
    ret.len() == this.moduli_u64.len(), forall|j: int| 0 <= j < ret.len() ==> #[trigger] ret@[j] as int == a.v() as int % (this.moduli_u64@[j] as int),
    forall|j: int| 0 <= j < ret.len() ==> #[trigger] ret@[j] < this.moduli_u64@[j],
entry
    proof { lemma_pow64(); }
inv 0
    $n == this.moduli_u64.len(), $out.len() == $i, rns_wf(*this),
    forall|j: int| 0 <= j < $i ==> #[trigger] $out@[j] as int == a.v() as int % (this.moduli_u64@[j] as int) && $out@[j] < this.moduli_u64@[j],
begin 0
    proof { assert(is_prime(this.moduli_u64@[$i as int] as nat)); lemma_mod_range(a.v() as int, this.moduli_u64@[$i as int] as int); }

== rns::RnsContext::lift
requires
    rns_wf(*this), rests.len() >= this.moduli_u64.len(),
ensures
    ret.v() == rns_val(*this, rests@), ret.v() < this.product.v(),
    forall|j: int| 0 <= j < this.moduli_u64.len() ==> ret.v() as int % (#[trigger] this.moduli_u64@[j] as int) == rests@[j] as int % (this.moduli_u64@[j] as int),
entry
    proof { lemma_rns_val(*this, rests@); lemma_mod_range(dot(ints(rests@), bigs(this.garner@), this.garner.len() as nat), this.product.v() as int); }
inv 0
    $n == this.garner.len(), res.v() == dot(ints(rests@), bigs(this.garner@), $i as nat),
begin 0
    proof { let j = $i as int; assert(dot(ints(rests@), bigs(this.garner@), (j + 1) as nat) == dot(ints(rests@), bigs(this.garner@), j as nat) + ints(rests@)[j] * bigs(this.garner@)[j]);
      let x = rests@[j] as int; let g = this.garner@[j].v() as int; assert(x * g == g * x) by(nonlinear_arith); }

== rns::RnsContext::modulus
ensures
    *ret == this.product,
== rns::ScalingFactor::new
requires
    denominator.v() > 0,
ensures
    ret.numerator == numerator, ret.denominator == denominator, ret.is_one == (numerator.v() == denominator.v()),
== rns::ScalingFactor::is_one
ensures
    ret == this.is_one,

== rns::RnsScaler::extract_projection_and_theta
requires
    rns_wf(*ctx), denominator.v() > 0,
ensures
    ret.0.len() == ctx.moduli_u64.len(), forall|j: int| 0 <= j < ret.0.len() ==> #[trigger] ret.0@[j] == rq(numerator.v() as int, denominator.v() as int, input.v() as int) % (ctx.moduli_u64@[j] as int),
    forall|j: int| 0 <= j < ret.0.len() ==> #[trigger] ret.0@[j] < ctx.moduli_u64@[j],
    sgn(ret.3, ret.1, ret.2) == (if round_up { tup(numerator.v() as int, denominator.v() as int, input.v() as int) } else { tdn(numerator.v() as int, denominator.v() as int, input.v() as int) }),
    sgn(false, ret.1, ret.2) <= two126(),
entry
    let ghost N = numerator.v() as int; let ghost D = denominator.v() as int; let ghost X = input.v() as int;
    proof { lemma_pow64(); lemma_theta(N, D, X); assert(N * X >= 0) by(nonlinear_arith) requires N >= 0, X >= 0; lemma_mod_range(N * X, D); lemma_pow126(); }
let theta_hi_biguint
    proof { let T = theta.v() as int; assert(T <= two126()); lemma_div_bounds(T, 0x1_0000_0000_0000_0000); let q = T / 0x1_0000_0000_0000_0000; assert(q < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires q * 0x1_0000_0000_0000_0000 <= T, T <= two126(); }

== rns::RnsScaler::new
requires
    scaler_ok(**from, **to), scaling_factor.denominator.v() > 0, scaling_factor.is_one == (scaling_factor.numerator.v() == scaling_factor.denominator.v()),
ensures
    scaler_wf(ret), *ret.from == **from, *ret.to == **to, ret.scaling_factor == scaling_factor,
entry
    let ghost fc = arcv(*from); let ghost n = from.moduli_u64.len(); let ghost m = to.moduli_u64.len(); let ghost N = scaling_factor.numerator.v() as int; let ghost D = scaling_factor.denominator.v() as int; let ghost Q = from.product.v() as int; let ghost g = bigs(from.garner@); let ghost tm = to.moduli_u64@; let ghost fm = from.moduli_u64@;
    proof { lemma_pow64(); assert forall|k: int| 0 <= k < fm.len() implies #[trigger] fm[k] > 0 by { assert(is_prime(fm[k] as nat)); } lemma_prodq_pos(fm, fm.len()); 
      assert forall|k: int| 0 <= k < tm.len() implies #[trigger] tm[k] > 0 by { assert(is_prime(tm[k] as nat)); } }
inv 0
    $n == m, $out.len() == $i, rns_wf(**to), forall|k: int| 0 <= k < $i ==> #[trigger] $out@[k] == shoup_of(gamma@[k] as int, tm[k] as int),
inv 1
    $n == m, omega.len() == $i, omega_shoup.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] omega@[k]).len() == n && omega_shoup@[k].len() == n,
inv 2
    rns_wf(**to), from.garner.len() == n, omega.len() == m, omega_shoup.len() == m, forall|k: int| 0 <= k < m ==> (#[trigger] omega@[k]).len() == n && omega_shoup@[k].len() == n,
    theta_omega_lo.len() == $i, theta_omega_hi.len() == $i, theta_omega_sign.len() == $i, $i <= n,
    forall|i: int, j: int| 0 <= i < m && 0 <= j < $i ==> #[trigger] omega@[i]@[j] == map_rq(N, D, g)[j] % (tm[i] as int),
    forall|i: int, j: int| 0 <= i < m && 0 <= j < $i ==> #[trigger] omega_shoup@[i]@[j] == shoup_of(omega@[i]@[j] as int, tm[i] as int),
    forall|j: int| 0 <= j < $i ==> sgn(#[trigger] theta_omega_sign@[j], theta_omega_lo@[j], theta_omega_hi@[j]) == map_tup(N, D, g)[j] && sgn(false, theta_omega_lo@[j], theta_omega_hi@[j]) <= two126(),
inv 3
    rns_wf(**to), i == $i2, i < n, $i <= m, omega.len() == m, omega_shoup.len() == m, forall|k: int| 0 <= k < m ==> (#[trigger] omega@[k]).len() == n && omega_shoup@[k].len() == n,
    omega_i.len() == m, forall|j: int| 0 <= j < m ==> #[trigger] omega_i@[j] == rq(N, D, g[i as int]) % (tm[j] as int) && omega_i@[j] < tm[j],
    forall|k: int, j: int| 0 <= k < m && (0 <= j < i || j == i && k < $i) ==> #[trigger] omega@[k]@[j] == map_rq(N, D, g)[j] % (tm[k] as int),
    forall|k: int, j: int| 0 <= k < m && (0 <= j < i || j == i && k < $i) ==> #[trigger] omega_shoup@[k]@[j] == shoup_of(omega@[k]@[j] as int, tm[k] as int),
begin 3
    proof { lemma_small_mod(omega_i@[$i as int] as nat, tm[$i as int] as nat); }
inv 4
    $n == n, ($acc matches Some(x) ==> 97 <= x <= 191), ($i > 0 ==> $acc.is_some()), fm.len() == n, n < 0x1_0000_0000, forall|k: int| 0 <= k < fm.len() ==> 0 < #[trigger] fm[k] < 0x4000_0000_0000_0000,
    from.moduli_u64@ == fm,
    forall|j: int| 0 <= j < $i ==> ($acc matches Some(x) ==> #[trigger] fm[j] * n < pow2((192 - x) as nat)),
begin 4
    let ghost a0 = $acc;
    proof { lemma_pow64(); let x = fm[$i as int] as int; assert(x * n < 0x4000_0000_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires 0 < x < 0x4000_0000_0000_0000, 0 <= n < 0x1_0000_0000;
      assert(x * n > 0) by(nonlinear_arith) requires x > 0, n > 0; lemma_pow2_strict(127); lemma_pow2_strict(94); lemma_pow2_strict(95); lemma_pow2_adds(62, 32); lemma_pow2_unfold(95); }
end 4
    proof { let x = $acc.unwrap(); lemma_pow2_strict((192 - x) as nat);
      if a0.is_some() { lemma_pow2_strict((192 - a0.unwrap()) as nat); } }
let theta_garner_shift
    proof { lemma_pow2_strict((192 - theta_garner_shift) as nat); }
inv 5
    $n == n, theta_garner_shift <= 127, theta_garner_lo.len() == $i, theta_garner_hi.len() == $i, rns_wf(fc), fc == **from, Q == from.product.v(), Q > 0, g == bigs(from.garner@), n == from.moduli_u64.len(),
    forall|j: int| 0 <= j < $i ==> sgn(false, #[trigger] theta_garner_lo@[j], theta_garner_hi@[j]) == map_tg(Q, theta_garner_shift as nat, g)[j] && sgn(false, theta_garner_lo@[j], theta_garner_hi@[j]) <= pow2(theta_garner_shift as nat),
begin 5
    proof { lemma_pow64(); lemma_garner(fc, $i as int, $i as int); lemma_garner_theta(g[$i as int], Q, theta_garner_shift as nat); }

== rns::RnsScaler::scale
attr
    #[verifier::rlimit(100)]
isolate 0
isolate 1
requires
    scaler_wf(*this), rests.len() == this.from.moduli_u64.len(), forall|j: int| 0 <= j < rests.len() ==> #[trigger] rests@[j] < this.from.moduli_u64@[j],
    old(out).len() >= 1, starting_index + old(out).len() <= this.to.moduli_u64.len(),
ensures
    final(out).len() == old(out).len(),
    forall|i: int| 0 <= i < final(out).len() ==> #[trigger] final(out)@[i] == scale_z(*this, ints(rests@)) % (this.to.moduli_u64@[starting_index + i] as int),
    forall|i: int| 0 <= i < final(out).len() ==> #[trigger] final(out)@[i] < this.to.moduli_u64@[starting_index + i],
entry
    let ghost n = rests.len(); let ghost N = snum(*this); let ghost D = sden(*this); let ghost Q = sq(*this); let ghost g = sgs(*this); let ghost r = ints(rests@); let ghost sh = this.theta_garner_shift as nat;
    let ghost tg = map_tg(Q, sh, g); let ghost tu = map_tup(N, D, g); let ghost om = map_rq(N, D, g); let ghost tm = this.to.moduli_u64@; let ghost L = old(out).len();
    proof { lemma_pow64(); lemma_pow126(); lemma_pows(); lemma_scale_sums(*this, rests@); lemma_scale_accuracy(*this, r); }
inv 0
    $n == n, rests.len() == n, n == this.from.moduli_u64.len(), r == ints(rests@), scaler_wf(*this), tg == map_tg(sq(*this), this.theta_garner_shift as nat, sgs(*this)),
    u192v(sum_theta_garner) == dot(r, tg, $i as nat), forall|k: nat| k <= n ==> 0 <= #[trigger] dot(r, tg, k) < pow2(192),
    forall|j: int| 0 <= j < rests.len() ==> #[trigger] rests@[j] < this.from.moduli_u64@[j], sh == this.theta_garner_shift,
begin 0
    proof { lemma_pow64(); lemma_pow126(); lemma_pow_le127(sh); let k = $i as int; let x = rests@[k]; assert(x < 0x4000_0000_0000_0000);
      let tl = this.theta_garner_lo@[k]; let th = this.theta_garner_hi@[k];
      assert(th <= 0x8000_0000_0000_0000);
      lemma_word_mul(x, tl, th);
      assert(dot(r, tg, ($i + 1) as nat) == dot(r, tg, $i as nat) + r[k] * tg[k]); }
end 0
    proof { let k = $i as int; lemma_small_mod(dot(r, tg, (k + 1) as nat) as nat, pow2(192)); }
let v
    proof { lemma_or_words(v@[0], v@[1]);
      assert(dot(r, tg, n as nat) / (pow2((sh - 1) as nat) as int) < pow2(101)) by { let a = dot(r, tg, n as nat) / (pow2((sh - 1) as nat) as int); assert((a + 1) / 2 == scale_v(*this, r)); } }
let v 1
    proof { assert(v_1 == scale_v(*this, r)); lemma_scale_s_bound(*this, rests@); assert(v_1 < 0x1_0000_0000_0000_0000_0000_0000_0000); }
before 1
    proof { lemma_small_mod(0, B256() as nat); }
inv 1
    $n == n, rests.len() == n, n == this.from.moduli_u64.len(), r == ints(rests@), scaler_wf(*this), tu == map_tup(snum(*this), sden(*this), sgs(*this)),
    u256v(sum_theta_omega) == dot(r, tu, $i as nat) % B256(),
    forall|j: int| 0 <= j < rests.len() ==> #[trigger] rests@[j] < this.from.moduli_u64@[j],
begin 1
    let ghost o = sum_theta_omega;
    proof { lemma_pow64(); lemma_pow126(); let k = $i as int; let x = rests@[k]; assert(x < 0x4000_0000_0000_0000);
      let tl = this.theta_omega_lo@[k]; let th = this.theta_omega_hi@[k];
      assert(sgn(this.theta_omega_sign@[k], tl, th) == tu[k]);
      assert(th <= 0x8000_0000_0000_0000);
      lemma_word_mul(x, tl, th); let y = sgn(false, tl, th);
      assert(x * (-y) == -(x * y)) by(nonlinear_arith);
      assert(dot(r, tu, ($i + 1) as nat) == dot(r, tu, $i as nat) + r[k] * tu[k]);
      lemma_mod_acc(u256v(o), dot(r, tu, $i as nat), x * y, B256()); }
after 1
    let ghost o1 = sum_theta_omega; 
    proof { let v = v_1 as int; assert(this.theta_gamma_hi <= 0x8000_0000_0000_0000); lemma_wide_mul(v, this.theta_gamma_lo, this.theta_gamma_hi); let y = sgn(false, this.theta_gamma_lo, this.theta_gamma_hi); assert(v * (-y) == -(v * y)) by(nonlinear_arith); lemma_mod_acc(u256v(o1), dot(r, tu, n as nat), v * y, B256()); }
let vt_hi
    proof { lemma_round_signed(scale_s(*this, r) % B256(), scale_s(*this, r)); }
before 2
    let ghost W = scale_w(*this, r); let ghost G = rq(N, D, Q); let ghost V = v_1 as int;
    proof { if this.scaling_factor.is_one { lemma_scale_one(*this, r); } 
      assert(W == (if w_sign { -(w as int) } else { w as int })); assert(w < 0x8000_0000_0000_0000_0000_0000_0000_0000); }
inv 2
    scaler_wf(*this), rests.len() == n, n == this.from.moduli_u64.len(), r == ints(rests@), out.len() == L, starting_index + L <= this.to.moduli_u64.len(), tm == this.to.moduli_u64@,
    V == v_1 as int, v_1 < 0x8000_0000_0000_0000_0000_0000_0000_0000, w < 0x8000_0000_0000_0000_0000_0000_0000_0000, W == (if w_sign { -(w as int) } else { w as int }), this.scaling_factor.is_one ==> w == 0,
    om == map_rq(N, D, g), N == snum(*this), D == sden(*this), Q == sq(*this), g == sgs(*this), G == rq(N, D, Q), V == scale_v(*this, r), W == scale_w(*this, r),
    forall|j: int| 0 <= j < $i ==> #[trigger] out@[j] == scale_z(*this, r) % (tm[starting_index + j] as int) && out@[j] < tm[starting_index + j],
let yi
    let ghost q = tm[starting_index + i] as int; 
    proof { assert(is_prime(tm[starting_index + i] as nat)); lemma_yi0(yi as int, V, G, q); }
    let ghost y00 = yi as int;
before 3
    let ghost base = W - V * G;
    proof { if !this.scaling_factor.is_one { lemma_yi1(y00, yi as int, -(V * G), w as int, w_sign, q); } assert(base == -(V * G) + W); assert(2 * q * 0 == 0); }
inv 3
    scaler_wf(*this), rests.len() == n, n == this.from.moduli_u64.len(), r == ints(rests@), $n == n,
    i < L, starting_index + L <= this.to.moduli_u64.len(), tm == this.to.moduli_u64@, q == tm[starting_index + i] as int, q > 0, 
    om == map_rq(N, D, g), N == snum(*this), D == sden(*this), g == sgs(*this),
    yi <= 4 * q + 2 * q * $i, (yi as int) % q == (base + dot(r, om, $i as nat)) % q,
begin 3
    let ghost y0 = yi as int; let ghost k = $i as int;
    proof { assert(dot(r, om, (k + 1) as nat) == dot(r, om, k as nat) + r[k] * om[k]); assert(2 * q * (k + 1) == 2 * q * k + 2 * q) by(nonlinear_arith);
      assert(2 * q * k <= 2 * 0x4000_0000_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires 0 <= q <= 0x4000_0000_0000_0000, 0 <= k <= 0x1_0000_0000; }
end 3
    proof { lemma_yi2(y0, yi as int, base + dot(r, om, k as nat), r[k], om[k], q); }
after 3
    proof { assert(2 * q * n <= 2 * 0x4000_0000_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires 0 <= q <= 0x4000_0000_0000_0000, 0 <= n <= 0x1_0000_0000; }
