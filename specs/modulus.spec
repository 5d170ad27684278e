== modulus::Modulus::modulus
ensures
    ret == this.p
== modulus::Modulus::new
requires
    2 <= p < 0x4000_0000_0000_0000,
ensures
    ret.p == p, mod_wf(ret),
entry
    proof { lemma_pow64(); lemma_div_bounds(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int, p as int);
      assert(1 * (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat) / (p as nat) < (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat)) by(nonlinear_arith) requires p >= 2; 
      assert(p >> 62u64 == 0) by(bit_vector) requires p < 0x4000_0000_0000_0000; }
exit
    proof { lemma_fundamental_div_mod(r as int, 0x1_0000_0000_0000_0000);
      lemma_small_mod((r as int / 0x1_0000_0000_0000_0000) as nat, 0x1_0000_0000_0000_0000); }

== modulus::Modulus::lazy_reduce_ct
requires
    mod_wf(*this),
ensures
    ret < 2 * this.p, ret as int % this.p as int == a as int % this.p as int,
entry
    let ghost b: int = 0x1_0000_0000_0000_0000;
    proof { lemma_pow64();
      let hi = this.barret_hi as int; let lo = this.barret_lo as int; let r = barret(*this); let p = this.p as int;
      lemma_barrett(a as int, p, r, b * b);
      lemma_div_bounds(b * b, p);
      assert(r < b * b / 2 + 1) by(nonlinear_arith) requires r * p <= b * b, p >= 2, r >= 0, b == 0x1_0000_0000_0000_0000;
      assert(hi <= b / 2) by(nonlinear_arith) requires hi * b + lo < b * b / 2 + 1, lo >= 0, b == 0x1_0000_0000_0000_0000;
      assert(0 <= a * lo <= (b - 1) * (b - 1)) by(nonlinear_arith) requires 0 <= a < b, 0 <= lo < b;
      assert(0 <= a * hi <= (b - 1) * (b / 2)) by(nonlinear_arith) requires 0 <= a < b, 0 <= hi <= b / 2, b == 0x1_0000_0000_0000_0000;
      assert((b - 1) * (b - 1) == 0xfffffffffffffffe0000000000000001int) by(compute);
      assert((b - 1) * (b / 2) == 0x7fffffffffffffff8000000000000000int) by(compute);
      lemma_div_bounds(a * lo, b);
      assert(a * lo / b < b) by(nonlinear_arith) requires (a * lo / b) * b <= a * lo, a * lo <= (b - 1) * (b - 1), b == 0x1_0000_0000_0000_0000;
      assert((a * hi) * b + a * lo == a * r) by(nonlinear_arith) requires r == hi * b + lo;
      lemma_div_split(a * hi, a * lo, b);
      lemma_div_div(a * r, b, b);
      let q = a * r / (b * b);
      assert((-q) * p == -(q * p)) by(nonlinear_arith);
      lemma_cong_intro(a - q * p, a as int, -q, p);
      lemma_small_mod((a - q * p) as nat, b as nat);
    }

== modulus::Modulus::lazy_reduce_u128
requires
    mod_wf(*this), a < 0x8000_0000_0000_0000_0000_0000_0000_0000,
ensures
    ret < 2 * this.p, ret as int % this.p as int == a as int % this.p as int,
let ahi
    let ghost b: int = 0x1_0000_0000_0000_0000;
    proof { lemma_pow64();
      let hi = this.barret_hi as int; let lo = this.barret_lo as int; let r = barret(*this); let p = this.p as int;
      assert(b * b == (0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int)) by(compute);
      lemma_barrett(a as int, p, r, b * b);
      lemma_div_bounds(b * b, p);
      assert(r < b * b / 2 + 1) by(nonlinear_arith) requires r * p <= b * b, p >= 2, r >= 0, b == 0x1_0000_0000_0000_0000;
      assert(hi <= b / 2) by(nonlinear_arith) requires hi * b + lo < b * b / 2 + 1, lo >= 0, b == 0x1_0000_0000_0000_0000;
      lemma_fundamental_div_mod(a as int, b);
      assert(alo as int == a as int % b);
      assert(ahi as int == a as int / b) by { lemma_div_bounds(a as int, b); lemma_small_mod((a as int / b) as nat, b as nat);  }
      let l = alo as int; let h = ahi as int;
      assert(0 <= h < b / 2);
      assert(0 <= l * lo <= (b - 1) * (b - 1)) by(nonlinear_arith) requires 0 <= l < b, 0 <= lo < b;
      assert(0 <= l * hi <= (b - 1) * (b / 2)) by(nonlinear_arith) requires 0 <= l < b, 0 <= hi <= b / 2, b == 0x1_0000_0000_0000_0000;
      assert(0 <= h * lo <= (b / 2 - 1) * (b - 1)) by(nonlinear_arith) requires 0 <= h < b / 2, 0 <= lo < b, b == 0x1_0000_0000_0000_0000;
      assert(0 <= h * hi <= (b / 2 - 1) * (b / 2)) by(nonlinear_arith) requires 0 <= h < b / 2, 0 <= hi <= b / 2, b == 0x1_0000_0000_0000_0000;
      assert((b - 1) * (b - 1) == 0xfffffffffffffffe0000000000000001int) by(compute);
      assert((b - 1) * (b / 2) == 0x7fffffffffffffff8000000000000000int) by(compute);
      assert((b / 2 - 1) * (b - 1) == 0x7ffffffffffffffe8000000000000001int) by(compute);
      assert((b / 2 - 1) * (b / 2) == 0x3fffffffffffffff8000000000000000int) by(compute);
      lemma_div_bounds(l * lo, b);
      assert(l * lo / b < b) by(nonlinear_arith) requires (l * lo / b) * b <= l * lo, l * lo <= (b - 1) * (b - 1), b == 0x1_0000_0000_0000_0000;
      let mid = l * hi + h * lo;
      assert(a * r == (b * h) * (hi * b) + (b * h) * lo + l * (hi * b) + l * lo) by(nonlinear_arith) requires r == hi * b + lo, a == b * h + l;
      assert((b * h) * (hi * b) == (h * hi * b) * b) by(nonlinear_arith);
      assert((b * h) * lo == (h * lo) * b) by(nonlinear_arith);
      assert(l * (hi * b) == (l * hi) * b) by(nonlinear_arith);
      assert((h * hi * b + mid) * b == (h * hi * b) * b + (l * hi) * b + (h * lo) * b) by(nonlinear_arith) requires mid == l * hi + h * lo;
      lemma_div_split(h * hi * b + mid, l * lo, b);
      assert((h * hi) * b + (mid + l * lo / b) == h * hi * b + mid + l * lo / b);
      lemma_div_split(h * hi, mid + l * lo / b, b);
      lemma_div_bounds(mid + l * lo / b, b);
      lemma_div_div(a * r, b, b);
      let q = a * r / (b * b);
      assert(q == h * hi + (mid + l * lo / b) / b);
      assert((-q) * p == -(q * p)) by(nonlinear_arith);
      lemma_cong_intro(a - q * p, a as int, -q, p);
      lemma_small_mod((a - q * p) as nat, b as nat);
    }

== modulus::Modulus::reduce_ct
requires
    0 < p < 0x8000_0000_0000_0000, x < 2 * p,
ensures
    ret == (if x < p { x } else { (x - p) as u64 }), ret as int == x as int % p as int,
entry
    proof { lemma_pow64(); lemma_mod_once(x as int, p as int);
      assert(p >> 63u64 == 0) by(bit_vector) requires p < 0x8000_0000_0000_0000;
      assert(forall|y: u64| #[trigger] ((((x ^ ((x ^ p) ^ (y ^ p))) >> 63u64))) >= 0);
    }
let c
    proof {
      assert(c == sub(((x ^ ((x ^ p) ^ (sub(x, p) ^ p))) >> 63u64), 1u64));
      assert(({ let y = sub(x, p); let c = sub(((x ^ ((x ^ p) ^ (y ^ p))) >> 63u64), 1u64); (c & y) | ((!c) & x) }) == (if x < p { x } else { sub(x, p) })) by(bit_vector) requires p < 0x8000_0000_0000_0000, x < 2 * p;
    }

== modulus::Modulus::reduce
requires
    mod_wf(*this),
ensures
    ret as int == a as int % this.p as int, ret < this.p,
exit
    proof { lemma_mod_range(a as int, this.p as int); }

== modulus::Modulus::reduce_u128
requires
    mod_wf(*this), a < 0x8000_0000_0000_0000_0000_0000_0000_0000,
ensures
    ret as int == a as int % this.p as int, ret < this.p,
exit
    proof { lemma_mod_range(a as int, this.p as int); }

== modulus::Modulus::reduce_biguint
requires
    mod_wf(*this),
ensures
    ret as int == a.v() as int % this.p as int, ret < this.p,
entry
    proof { lemma_mod_range(a.v() as int, this.p as int); lemma_pow64(); }

== modulus::Modulus::reduce_i64
requires
    mod_wf(*this),
ensures
    ret as int == a as int % this.p as int, ret < this.p,
entry
    proof { lemma_pow64(); lemma_mod_range(a as int, this.p as int);
      assert(this.p * 0x1_0000_0000_0000_0000 + a < 0x4000_0000_0000_0000_0000_0000_0000_0000);
      lemma_cong_intro(this.p * 0x1_0000_0000_0000_0000 + a, a as int, 0x1_0000_0000_0000_0000, this.p as int); 
      assert(0x1_0000_0000_0000_0000 * (this.p as int) == this.p as int * 0x1_0000_0000_0000_0000) by(nonlinear_arith); }

== modulus::Modulus::reduce_vec_u64
requires
    mod_wf(*this),
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] ret@[i] as int == a@[i] as int % this.p as int && ret@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), $out.len() == $i,
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == a@[i] as int % this.p as int && $out@[i] < this.p,

== modulus::Modulus::reduce_vec_i64
requires
    mod_wf(*this),
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] ret@[i] as int == a@[i] as int % this.p as int && ret@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), $out.len() == $i,
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == a@[i] as int % this.p as int && $out@[i] < this.p,

== modulus::Modulus::reduce_vec_biguint
requires
    mod_wf(*this),
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] ret@[i] as int == a@[i].v() as int % this.p as int && ret@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), $out.len() == $i,
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == a@[i].v() as int % this.p as int && $out@[i] < this.p,

== modulus::Modulus::add
requires
    mod_wf(*this), a < this.p, b < this.p,
ensures
    ret as int == (a + b) % this.p as int, ret < this.p,
entry
    proof { lemma_mod_range(a + b, this.p as int); }

== modulus::Modulus::sub
requires
    mod_wf(*this), a < this.p, b < this.p,
ensures
    ret as int == (a - b) % this.p as int, ret < this.p,
entry
    proof { lemma_mod_range(a - b, this.p as int); lemma_cong_intro(a + (this.p - b), a - b, 1, this.p as int); }

== modulus::Modulus::mul
requires
    mod_wf(*this), a < this.p, b < this.p,
ensures
    ret as int == (a * b) % this.p as int, ret < this.p,
entry
    proof { let m: int = 0x4000_0000_0000_0000; assert(a * b < m * m) by(nonlinear_arith) requires 0 <= a < m, 0 <= b < m; assert(m * m == 0x1000_0000_0000_0000_0000_0000_0000_0000int) by(compute); 
       assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }

== modulus::Modulus::neg
requires
    mod_wf(*this), a < this.p,
ensures
    ret as int == (-(a as int)) % this.p as int, ret < this.p,
entry
    proof { lemma_mod_range(-(a as int), this.p as int); lemma_cong_intro(this.p - a, -(a as int), 1, this.p as int); }

== modulus::Modulus::pow
requires
    mod_wf(*this), a < this.p, r < this.p,
ensures
    ret as int == powmod(a as int, r as nat, this.p as int), ret < this.p,
entry
    proof { lemma_pow64(); lemma_pow0(a as int); lemma_pow1(a as int); lemma_small_mod(a as nat, this.p as nat); lemma_small_mod(1, this.p as nat); 
       lemma_mod_range(pow(a as int, r as nat), this.p as int);
       if r >= 2 { lemma_pow_lz(r); } }
before 0
    proof { lemma_pow2_unfold((bits + 2) as nat); lemma_pow2_pos((bits + 1) as nat);
       lemma_shift_one(r as int, (bits + 1) as nat); }
inv 0
    mod_wf(*this), a < this.p, r < this.p, r >= 2, -1 <= bits <= 62,
    val < this.p, val as int == powmod(a as int, (r as int / pow2((bits + 1) as nat) as int) as nat, this.p as int),
dec 0
    bits + 1
begin 0
    proof {
      let e = r as int / pow2((bits + 1) as nat) as int;
      lemma_pow2_pos((bits + 1) as nat); lemma_pow2_pos(bits as nat); lemma_div_pos_is_pos(r as int, pow2((bits + 1) as nat) as int);
      lemma_powmod_step(a as int, e as nat, this.p as int);
      lemma_powmod_step(a as int, (2 * e) as nat, this.p as int);
      lemma_shift_step(r as int, bits as nat);
      let sh: u64 = r >> (bits as u64);
      assert(sh & 1 == sh % 2) by(bit_vector);
    }
after 0
    proof { lemma_pow64(); assert(bits == -1); assert(pow2((bits + 1) as nat) == 1); assert(r as int / 1 == r as int); }

== modulus::Modulus::inv
requires
    mod_wf(*this), is_prime(this.p as nat), 0 < a < this.p,
ensures
    (ret * a) % this.p as int == 1, 0 < ret < this.p,
entry
    proof { lemma_fermat(a as int, this.p as int); }
exit
    proof { lemma_inv_from_fermat(a as int, ret as int, this.p as int); }

== modulus::Modulus::inv_vec
requires
    mod_wf(*this), is_prime(this.p as nat), forall|i: int| 0 <= i < a.len() ==> 0 < #[trigger] a@[i] < this.p,
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] ret@[i] * a@[i]) % this.p as int == 1 && 0 < ret@[i] < this.p,
inv 0
    mod_wf(*this), is_prime(this.p as nat), $n == a.len(), $out.len() == $i,
    forall|i: int| 0 <= i < a.len() ==> 0 < #[trigger] a@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> (#[trigger] $out@[i] * a@[i]) % this.p as int == 1 && 0 < $out@[i] < this.p,

== modulus::Modulus::add_vec
requires
    mod_wf(*this), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p, old(a).len() == b.len(),
ensures
    final(a).len() == old(a).len(), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] final(a)@[i] as int == (old(a)@[i] + b@[i]) % this.p as int && final(a)@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), a.len() == b.len(), a.len() == old(a).len(),
    forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> #[trigger] a@[i] as int == (old(a)@[i] + b@[i]) % this.p as int && a@[i] < this.p,
    forall|i: int| $i <= i < a.len() ==> #[trigger] a@[i] == old(a)@[i],

== modulus::Modulus::sub_vec
requires
    mod_wf(*this), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p, old(a).len() == b.len(),
ensures
    final(a).len() == old(a).len(), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] final(a)@[i] as int == (old(a)@[i] - b@[i]) % this.p as int && final(a)@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), a.len() == b.len(), a.len() == old(a).len(),
    forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> #[trigger] a@[i] as int == (old(a)@[i] - b@[i]) % this.p as int && a@[i] < this.p,
    forall|i: int| $i <= i < a.len() ==> #[trigger] a@[i] == old(a)@[i],

== modulus::Modulus::mul_vec
requires
    mod_wf(*this), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p, old(a).len() == b.len(),
ensures
    final(a).len() == old(a).len(), forall|i: int| 0 <= i < old(a).len() ==> #[trigger] final(a)@[i] as int == (old(a)@[i] * b@[i]) % this.p as int && final(a)@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), a.len() == b.len(), a.len() == old(a).len(),
    forall|i: int| 0 <= i < old(a).len() ==> #[trigger] old(a)@[i] < this.p, forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> #[trigger] a@[i] as int == (old(a)@[i] * b@[i]) % this.p as int && a@[i] < this.p,
    forall|i: int| $i <= i < a.len() ==> #[trigger] a@[i] == old(a)@[i],

== modulus::Modulus::neg_vec
requires
    mod_wf(*this), forall|i: int| 0 <= i < a.len() ==> #[trigger] a@[i] < this.p,
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] ret@[i] as int == (-(a@[i] as int)) % this.p as int && ret@[i] < this.p,
inv 0
    mod_wf(*this), $n == a.len(), $out.len() == $i, forall|i: int| 0 <= i < a.len() ==> #[trigger] a@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == (-(a@[i] as int)) % this.p as int && $out@[i] < this.p,

== modulus::Modulus::scalar_mul_vec
requires
    mod_wf(*this), b < this.p,
ensures
    ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] (ret@[i] as int % this.p as int) == (a@[i] * b) % this.p as int && ret@[i] < 2 * this.p,
inv 0
    mod_wf(*this), b < this.p, b_shoup as int == shoup_of(b as int, this.p as int), $n == a.len(), $out.len() == $i,
    forall|i: int| 0 <= i < $i ==> #[trigger] ($out@[i] as int % this.p as int) == (a@[i] * b) % this.p as int && $out@[i] < 2 * this.p,

== modulus::Modulus::shoup
requires
    mod_wf(*this), a < this.p,
ensures
    ret as int == shoup_of(a as int, this.p as int),
entry
    proof { lemma_pow64(); lemma_shoup(0, a as int, this.p as int, shoup_of(a as int, this.p as int), 0x1_0000_0000_0000_0000);
       lemma_small_mod((a * 0x1_0000_0000_0000_0000) as nat, (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat));
       lemma_small_mod(shoup_of(a as int, this.p as int) as nat, 0x1_0000_0000_0000_0000); }

== modulus::Modulus::shoup_vec
requires
    mod_wf(*this), forall|i: int| 0 <= i < vals.len() ==> #[trigger] vals@[i] < this.p,
ensures
    ret.len() == vals.len(), forall|i: int| 0 <= i < vals.len() ==> #[trigger] ret@[i] as int == shoup_of(vals@[i] as int, this.p as int),
inv 0
    mod_wf(*this), $n == vals.len(), $out.len() == $i, forall|i: int| 0 <= i < vals.len() ==> #[trigger] vals@[i] < this.p,
    forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] as int == shoup_of(vals@[i] as int, this.p as int),

== modulus::Modulus::lazy_mul_shoup
requires
    mod_wf(*this), b < this.p, b_shoup as int == shoup_of(b as int, this.p as int),
ensures
    ret < 2 * this.p, ret as int % this.p as int == (a * b) % this.p as int,
entry
    proof { lemma_pow64();
      let bb: int = 0x1_0000_0000_0000_0000;
      lemma_shoup(a as int, b as int, this.p as int, b_shoup as int, bb);
      let q = a * b_shoup / bb;
      assert(0 <= a * b_shoup < bb * bb) by(nonlinear_arith) requires 0 <= a < bb, 0 <= b_shoup < bb;
      assert(0 <= a * b < bb * bb) by(nonlinear_arith) requires 0 <= a < bb, 0 <= b < bb;
      assert(bb * bb == (0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int)) by(compute);
      assert(0 <= q * this.p) by(nonlinear_arith) requires q >= 0, this.p >= 0;
      assert((-q) * this.p == -(q * this.p)) by(nonlinear_arith);
      lemma_cong_intro(a * b - q * this.p, a * b, -q, this.p as int);
      lemma_small_mod((a * b - q * this.p) as nat, bb as nat);
    }

== modulus::Modulus::mul_shoup
requires
    mod_wf(*this), b < this.p, b_shoup as int == shoup_of(b as int, this.p as int),
ensures
    ret < this.p, ret as int == (a * b) % this.p as int,
exit
    proof { lemma_mod_range(a * b, this.p as int); }

== modulus::Modulus::random
requires
    mod_wf(*this),
ensures
    ret < this.p,

== modulus::Modulus::random_vec
requires
    mod_wf(*this),
ensures
    ret.len() == size, forall|i: int| 0 <= i < size ==> #[trigger] ret@[i] < this.p,
inv 0
    mod_wf(*this), $n == size, $out.len() == $i, forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] < this.p,

== modulus::Modulus::bits
requires
    mod_wf(*this),
ensures
    1 <= ret <= 62, pow2((ret - 1) as nat) <= this.p < pow2(ret as nat),
entry
    proof { lemma_pow64(); lemma_pow2_strict(62); }
