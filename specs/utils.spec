== utils::bit_vector
requires
    m < pow2(bit_size as nat),
ensures
    ret.len() == bit_size, forall|i: int| 0 <= i < bit_size ==> #[trigger] ret@[i] == (bit(m as int, i as nat) == 1),
before 0
    proof { lemma_div_pow0(m as int); }
inv 0
    bit_vec.len() == bit_size, index <= bit_size, mask == 1,
    value as int == m as int / pow2(index as nat) as int,
    forall|i: int| 0 <= i < index ==> #[trigger] bit_vec@[i] == (bit(m as int, i as nat) == 1),
    forall|i: int| index <= i < bit_size ==> #[trigger] bit_vec@[i] == false,
dec 0
    value
begin 0
    proof {
      lemma_pow2_pos(index as nat);
      if index >= bit_size { if index > bit_size { lemma_pow2_strictly_increases(bit_size as nat, index as nat); } lemma_basic_div(m as int, pow2(index as nat) as int); }
      assert(value & 1 == value % 2) by(bit_vector);
      assert(value >> 1u64 == value / 2) by(bit_vector);
      lemma_pow2_unfold((index + 1) as nat); lemma_div_div(m as int, pow2(index as nat) as int, 2);
    }
after 0
    proof { assert forall|i: int| index <= i < bit_size implies #[trigger] bit(m as int, i as nat) == 0 by {
        lemma_pow2_pos(index as nat); lemma_div_bounds(m as int, pow2(index as nat) as int); lemma_bit_high(m as int, i as nat, index as nat); } }

== utils::decompose_bits
requires
    m < pow2(parent_bits as nat), 0 < decomp_bits <= 64, parent_bits + decomp_bits <= 0x7fff_ffff_ffff_ffff,
ensures
    ret.len() == chunks_len_s(parent_bits as int, decomp_bits as int),
    forall|i: int| 0 <= i < ret.len() ==> #[trigger] ret@[i] as int == (m as int / pow2((i * decomp_bits) as nat) as int) % pow2(decomp_bits as nat) as int,
inv 0
    $out.len() == $i, $n as int == chunks_len_s(parent_bits as int, decomp_bits as int), bit_vector.len() == parent_bits,
    (bit_vector.len() > 0 ==> ($n - 1) * decomp_bits < bit_vector.len()),
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == (m as int / pow2((i * decomp_bits) as nat) as int) % pow2(decomp_bits as nat) as int,
begin 0
    proof { assert($i * decomp_bits <= ($n - 1) * decomp_bits) by(nonlinear_arith) requires $i <= $n - 1, decomp_bits > 0;
       assert($i * decomp_bits >= 0) by(nonlinear_arith) requires $i >= 0, decomp_bits > 0; }
before 1
    let ghost lo = $i0 * decomp_bits;
    let ghost hi = if lo + decomp_bits <= parent_bits { lo + decomp_bits } else { parent_bits as int };
    proof { lemma_pow64();
       if decomp_bits < 64 { lemma_pow2_strictly_increases(decomp_bits as nat, 64); }
       lemma_mod_bound(m as int / pow2(hi as nat) as int, 1); lemma_pow2_pos(hi as nat); lemma_div_pos_is_pos(m as int, pow2(hi as nat) as int); }
inv 1
    $n == hi - lo,
    $acc as int == (m as int / pow2((hi - $i) as nat) as int) % pow2($i as nat) as int,
begin 1
    proof { lemma_digit_step(m as int, (hi - $i - 1) as nat, $i as nat); lemma_pow2_pos($i as nat); lemma_pow2_pos((hi - $i) as nat);
       lemma_mod_bound(m as int / pow2((hi - $i) as nat) as int, pow2($i as nat) as int);
       lemma_mod_bound(m as int / pow2((hi - $i - 1) as nat) as int, 2);
       if $i < 63 { lemma_pow2_strictly_increases($i as nat, 63); } lemma_pow64(); }
after 1
    proof { 
       lemma_pow2_pos(lo as nat); lemma_div_pos_is_pos(m as int, pow2(lo as nat) as int);
       if lo + decomp_bits > parent_bits {
         let w = (hi - lo) as nat; lemma_pow2_adds(lo as nat, w); lemma_pow2_pos(lo as nat); lemma_pow2_pos(w);
         let x = m as int / pow2(lo as nat) as int;
         lemma_div_bounds(m as int, pow2(lo as nat) as int);
         assert(x < pow2(w)) by(nonlinear_arith) requires x * pow2(lo as nat) <= m, m < pow2(lo as nat) * pow2(w), pow2(lo as nat) > 0;
         lemma_small_mod(x as nat, pow2(w)); lemma_pow2_strictly_increases(w, decomp_bits as nat); lemma_small_mod(x as nat, pow2(decomp_bits as nat));
       } }

== utils::sample_vec_cbd
requires
    1 <= variance <= 16, vector_size <= 0x00ff_ffff_ffff_ffff,
ensures
    ret.len() == vector_size,
    forall|i: int| 0 <= i < vector_size ==> #[trigger] ret@[i] as int == cbd_sample(*old(rng), variance as nat, i as nat),
    forall|i: int| 0 <= i < vector_size ==> -2 * variance <= #[trigger] ret@[i] <= 2 * variance,
entry
    let ghost mut words: nat = 0;
    let ghost rng0 = *rng;
    proof { lemma_cbd_masks(variance); lemma_cbd_init(rng0, variance as nat); }
inv 0
    out.len() == $i, rng.src == rng0.src, rng.pos@ == rng0.pos@ + words,
    current_pool_nbits < 64, 64 * words == current_pool_nbits + number_bits * $i,
    current_pool as int == stream(rng0, words) / pow2((number_bits * $i) as nat) as int,
    current_pool < pow2(current_pool_nbits as nat),
    forall|i: int| 0 <= i < $i ==> #[trigger] out@[i] as int == cbd_sample(rng0, variance as nat, i as nat),
    forall|i: int| 0 <= i < $i ==> -2 * variance <= #[trigger] out@[i] <= 2 * variance,
begin 0
    let ghost pool0 = current_pool; let ghost nb0 = current_pool_nbits;
    proof {
      assert(number_bits * $i <= 64 * 0x00ff_ffff_ffff_ffff) by(nonlinear_arith) requires number_bits <= 64, $i <= 0x00ff_ffff_ffff_ffff, $i >= 0;
      assert(number_bits * ($i + 1) == number_bits * $i + number_bits) by(nonlinear_arith);
      lemma_stream_pos(rng0, words);
      if nb0 < number_bits { lemma_cbd_refill(rng0, words, pool0, nb0, (number_bits * $i) as nat); words = words + 1; }
    }
    let ghost pool1 = stream(rng0, words) / pow2((number_bits * $i) as nat) as int;
end 0
    proof { 
      lemma_cbd_take(rng0, words, variance, $i as nat); lemma_pow2_pos(number_bits as nat);
      lemma_pow64(); lemma_pow2_adds(number_bits as nat, current_pool_nbits as nat);
      lemma_div_small(pool1, number_bits as nat, current_pool_nbits as nat);
    }

== utils::ilog2
requires
    value > 0 && $T::BITS == $T::BITS,
ensures
    pow2(ret as nat) <= value < pow2((ret + 1) as nat), ret < 128,

== utils::div_ceil
requires
    b > 0, a + b <= $T::MAX,
ensures
    ret as int == (a + b - 1) / b as int, (ret - 1) * b < a <= ret * b,
exit
    proof { lemma_div_bounds(a + b - 1, b as int); assert((ret - 1) * b == ret * b - b) by(nonlinear_arith); }

== utils::is_prime
ensures
    ret == is_prime(p as nat),
entry
    proof { lemma_small_primes(); }
inv 0
    p >= 2, forall|k: int| 0 <= k < $i ==> (p as int) % #[trigger] mr_base(k) != 0 && sprp(p as int, mr_base(k)),
before 0
    proof { assert(mr_base(0) == 2); }
begin 0
    let ghost bb = mr_base($i as int);
    proof {
       assert(is_prime(p as nat) && p as int % bb == 0 ==> p == bb) by { if is_prime(p as nat) && p as int % bb == 0 && p != bb { lemma_prime_divisor(p as int, bb); } }
       assert(mr_base(0) == 2); assert(p as int % mr_base(0) == 0 || p % 2 == 1);
       if bb % p as int == 0 { lemma_prime_divisor(bb, p as int); assert(p as int % p as int == 0); }
       if is_prime(p as nat) && p as int % bb != 0 { lemma_prime_sprp(p as int, bb); }
    }
after 0
    proof { lemma_sprp_complete(p as int); }

== utils::is_strong_probable_prime
requires
    p > 2, p % 2 == 1, 0 < base, base % p != 0,
ensures
    ret == sprp(p as int, base as int),
before 0
    proof { lemma_pow64(); assert(pow2(0) == 1) by { lemma2_to64(); } }
inv 0
    0 < d < p, 0 <= s < 64, p - 1 == d * pow2(s as nat), pow2(s as nat) <= p,
dec 0
    d
begin 0
    proof {
      lemma_pow2_unfold((s + 1) as nat); lemma_pow2_pos(s as nat);
      let h = d as int / 2; let t = pow2(s as nat) as int;
      assert(d as int * t == h * (2 * t)) by(nonlinear_arith) requires d as int == 2 * h;
      assert(2 * t <= h * (2 * t)) by(nonlinear_arith) requires h >= 1, t > 0;
      if s + 1 >= 64 { lemma_pow2_mono(64, (s + 1) as nat); }
    }
before 1
    let ghost d0 = d; let ghost s0 = s;
    proof { lemma_sprp_decomp(p as int, d0 as int, s0 as nat); lemma_small_mod(1, p as nat); lemma_mod_range(1 * pow(base as int, d as nat), p as int); }
inv 1
    p > 2, x < p, (x * pow(power as int, d as nat)) % p as int == pow(base as int, d0 as nat) % p as int,
dec 1
    d
begin 1
    proof {
      lemma_sqmul_step(x as int, power as int, d as nat, p as int);
      assert(x * power <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires x <= 0xffff_ffff_ffff_ffff, power <= 0xffff_ffff_ffff_ffff;
      assert(power * power <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires power <= 0xffff_ffff_ffff_ffff;
      lemma_mod_range(x * power, p as int); lemma_mod_range(power * power, p as int);
    }
after 1
    let ghost e0 = pow(base as int, d0 as nat);
    proof { lemma_pow0(power as int); lemma_small_mod(x as nat, p as nat); assert(x as int == e0 % p as int);
       assert(pow2(0) == 1) by { lemma2_to64(); } lemma_sprp_at(p as int, base as int, d0 as int, s0 as nat); }
inv 2
    x < p, p > 2, x as int == pow(base as int, (d0 * pow2(($i - 1) as nat)) as nat) % p as int,
    forall|r: nat| r < $i ==> pow(base as int, (d0 * #[trigger] pow2(r)) as nat) % p as int != p - 1,
begin 2
    proof {
      let e = (d0 * pow2(($i - 1) as nat)) as nat;
      lemma_powmod_step(base as int, e, p as int); lemma_pow2_unfold($i as nat);
      assert(2 * e == d0 * pow2($i as nat)) by(nonlinear_arith) requires e == d0 * pow2(($i - 1) as nat), pow2($i as nat) == 2 * pow2(($i - 1) as nat);
      assert(x * x <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires x <= 0xffff_ffff_ffff_ffff;
      lemma_mod_range(x * x, p as int);
    }

== utils::generate_prime
requires
    0 < upper_bound, num_bits < 64 ==> upper_bound <= pow2(num_bits as nat), modulo > 0,
ensures
    ret.is_some() ==> is_prime(ret.unwrap() as nat) && ret.unwrap() % modulo == 1 && ret.unwrap() < upper_bound && pow2((num_bits - 1) as nat) <= ret.unwrap() && 10 <= num_bits <= 62,
    10 <= num_bits <= 62 ==> forall|q: u64| #[trigger] is_prime(q as nat) && q % modulo == 1 && q < upper_bound && q >= pow2((num_bits - 1) as nat) ==> ret.is_some() && ret.unwrap() >= q,
entry
    proof { lemma_pow64(); if num_bits < 64 { lemma_pow2_strictly_increases(num_bits as nat, 64); lemma_pow2_pos(num_bits as nat); lemma_small_mod(pow2(num_bits as nat), pow2(64)); }
       if num_bits >= 1 { lemma_pow2_pos((num_bits - 1) as nat); lemma_pow2_unfold(num_bits as nat); }
       if 1 <= num_bits < 64 { lemma_lz_all(num_bits as nat); } }
inv 0
    tentative_prime < upper_bound,
    forall|q: u64| #[trigger] is_prime(q as nat) && q % modulo == 1 && q < upper_bound ==> q <= tentative_prime,
dec 0
    tentative_prime
inv 1
    tentative_prime < upper_bound, tentative_prime >= pow2((num_bits - 1) as nat) ==> tentative_prime % modulo == 1,
    forall|q: u64| #[trigger] is_prime(q as nat) && q % modulo == 1 && q < upper_bound && q >= pow2((num_bits - 1) as nat) ==> q <= tentative_prime,
dec 1
    tentative_prime
begin 1
    proof {
      assert forall|q: u64| #[trigger] is_prime(q as nat) && q % modulo == 1 && q < upper_bound && q >= pow2((num_bits - 1) as nat) implies q <= tentative_prime - modulo by { lemma_ap(q as int, tentative_prime as int, modulo as int); }
      lemma_cong_intro(tentative_prime - modulo, tentative_prime as int, -1, modulo as int);
    }
after 1
    proof {
      lemma_pow2_strictly_increases(1, num_bits as nat); if num_bits >= 3 { lemma_pow2_strictly_increases(1, (num_bits - 1) as nat); }
      assert forall|q: u64| #[trigger] is_prime(q as nat) && q % modulo == 1 && q < upper_bound && q >= pow2((num_bits - 1) as nat) implies tentative_prime >= modulo by { if q < modulo { lemma_small_mod(q as nat, modulo as nat); } }
    }

== utils::U256::zero
ensures
    u256v(ret) == 0,

== utils::U256::msb
ensures
    ret == (if u256v(this) >= B256() / 2 { 1u64 } else { 0u64 }),
entry
    proof { lemma_pow64(); let x = this.f3; assert(x >> 63u64 == (if x >= 0x8000_0000_0000_0000u64 { 1u64 } else { 0u64 })) by(bit_vector); }

== utils::U256::wrapping_add_assign
ensures
    u256v(*final(this)) == (u256v(*old(this)) + u256v(other)) % B256(), 0 <= u256v(*final(this)) < B256(),
exit
    proof { lemma_pow64(); let x = u256v(*old(this)) + u256v(other); lemma_mod_once(x, B256()); }

== utils::U256::wrapping_sub_assign
ensures
    u256v(*final(this)) == (u256v(*old(this)) - u256v(other)) % B256(), 0 <= u256v(*final(this)) < B256(),
exit
    proof { lemma_pow64(); let x = u256v(*old(this)) - u256v(other); if x >= 0 { lemma_small_mod(x as nat, B256() as nat); } else { lemma_cong_intro(x + B256(), x, 1, B256()); lemma_small_mod((x + B256()) as nat, B256() as nat); } }

== utils::U256::from([u64; 4])
ensures
    ret.f0 == a@[0], ret.f1 == a@[1], ret.f2 == a@[2], ret.f3 == a@[3],

== utils::U256::from([u128; 2])
ensures
    u256v(ret) == a@[0] + 0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * a@[1]),
entry
    proof { lemma_pow64(); lemma_fundamental_div_mod(a@[0] as int, 0x1_0000_0000_0000_0000); lemma_fundamental_div_mod(a@[1] as int, 0x1_0000_0000_0000_0000);
      lemma_small_mod((a@[0] as int / 0x1_0000_0000_0000_0000) as nat, 0x1_0000_0000_0000_0000); lemma_small_mod((a@[1] as int / 0x1_0000_0000_0000_0000) as nat, 0x1_0000_0000_0000_0000); }

== utils::[u64; 4]::from(U256)
ensures
    ret@[0] == a.f0, ret@[1] == a.f1, ret@[2] == a.f2, ret@[3] == a.f3,

== utils::[u128; 2]::from(U256)
ensures
    ret@[0] + 0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * ret@[1]) == u256v(a),
entry
    proof { lemma_pow64(); lemma_small_mod((a.f1 * 0x1_0000_0000_0000_0000) as nat, pow2(128)); lemma_small_mod((a.f3 * 0x1_0000_0000_0000_0000) as nat, pow2(128)); }

== utils::u128::from(U256)
requires
    v.f2 == 0, v.f3 == 0,
ensures
    ret as int == u256v(*v),
entry
    proof { lemma_pow64(); lemma_small_mod((v.f1 * 0x1_0000_0000_0000_0000) as nat, pow2(128)); }

== utils::U256::not()
ensures
    u256v(ret) == B256() - 1 - u256v(this),
entry
    proof { let x = this.f0; assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by(bit_vector); let x = this.f1; assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by(bit_vector);
      let x = this.f2; assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by(bit_vector); let x = this.f3; assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by(bit_vector); }

== utils::U256::shr_assign(usize)
requires
    rhs < 256,
ensures
    u256v(*final(this)) == u256v(*old(this)) / pow2(rhs as nat) as int,
entry
    let ghost o = *this;
    proof { lemma_pow64(); lemma_u256_shift(o, rhs as nat); }
exit
    proof { 
      if 0 < rhs < 64 { lemma_word_shift(o.f0, o.f1, rhs, o.f0 >> (rhs as u64), o.f1 << ((64 - rhs) as u64)); lemma_word_shift(o.f1, o.f2, rhs, o.f1 >> (rhs as u64), o.f2 << ((64 - rhs) as u64)); lemma_word_shift(o.f2, o.f3, rhs, o.f2 >> (rhs as u64), o.f3 << ((64 - rhs) as u64)); }
      if 64 < rhs < 128 { let r = (rhs - 64) as usize; assert((128 - rhs) as u64 == (64 - r) as u64); lemma_word_shift(o.f1, o.f2, r, o.f1 >> (r as u64), o.f2 << ((64 - r) as u64)); lemma_word_shift(o.f2, o.f3, r, o.f2 >> (r as u64), o.f3 << ((64 - r) as u64)); }
      if 128 < rhs < 192 { let r = (rhs - 128) as usize; assert((192 - rhs) as u64 == (64 - r) as u64); lemma_word_shift(o.f2, o.f3, r, o.f2 >> (r as u64), o.f3 << ((64 - r) as u64)); }
    }

== utils::U256::shr(usize)
requires
    rhs < 256,
ensures
    u256v(ret) == u256v(this) / pow2(rhs as nat) as int,
