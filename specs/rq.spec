== rq::Poly::coefficients
ensures
    *ret == this.coefficients,

== rq::Poly::zero
requires
    ctx_wf(**ctx),
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == representation, forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == 0,
entry
    proof { lemma_ctx_all(arcv(*ctx)); }

== rq::Poly::add_assign(Poly)
refuses
requires
    poly_wf(*old(this)), poly_wf(*rhs), rhs.context == old(this).context,
ensures
    poly_wf(*final(this)), final(this).context == old(this).context, old(this).representation == Representation::Ntt, rhs.representation == Representation::Ntt, final(this).representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*old(this).context) && 0 <= k < old(this).context.degree ==> #[trigger] final(this).coefficients.rows@[i]@[k] == (pc(*old(this), i, k) + pc(*rhs, i, k)) % cq(*old(this).context, i),
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), poly_wf(*rhs), this.context == old(this).context, this.representation == old(this).representation, rhs.context == this.context,
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < this.context.degree ==> #[trigger] this.coefficients.rows@[i]@[k] == (pc(*old(this), i, k) + pc(*rhs, i, k)) % cq(*this.context, i),
    forall|i: int| $i <= i < $n ==> #[trigger] this.coefficients.rows@[i] == old(this).coefficients.rows@[i],

== rq::Poly::sub_assign(Poly)
refuses
requires
    poly_wf(*old(this)), poly_wf(*rhs), rhs.context == old(this).context,
ensures
    poly_wf(*final(this)), final(this).context == old(this).context, old(this).representation == Representation::Ntt, rhs.representation == Representation::Ntt, final(this).representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*old(this).context) && 0 <= k < old(this).context.degree ==> #[trigger] final(this).coefficients.rows@[i]@[k] == (pc(*old(this), i, k) - pc(*rhs, i, k)) % cq(*old(this).context, i),
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), poly_wf(*rhs), this.context == old(this).context, this.representation == old(this).representation, rhs.context == this.context,
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < this.context.degree ==> #[trigger] this.coefficients.rows@[i]@[k] == (pc(*old(this), i, k) - pc(*rhs, i, k)) % cq(*this.context, i),
    forall|i: int| $i <= i < $n ==> #[trigger] this.coefficients.rows@[i] == old(this).coefficients.rows@[i],

== rq::Poly::mul_assign(Poly)
refuses
requires
    poly_wf(*old(this)), poly_wf(*rhs), rhs.context == old(this).context,
ensures
    poly_wf(*final(this)), final(this).context == old(this).context, old(this).representation == Representation::Ntt, rhs.representation == Representation::Ntt, final(this).representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*old(this).context) && 0 <= k < old(this).context.degree ==> #[trigger] final(this).coefficients.rows@[i]@[k] == (pc(*old(this), i, k) * pc(*rhs, i, k)) % cq(*old(this).context, i),
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), poly_wf(*rhs), this.context == old(this).context, this.representation == old(this).representation, rhs.context == this.context,
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < this.context.degree ==> #[trigger] this.coefficients.rows@[i]@[k] == (pc(*old(this), i, k) * pc(*rhs, i, k)) % cq(*this.context, i),
    forall|i: int| $i <= i < $n ==> #[trigger] this.coefficients.rows@[i] == old(this).coefficients.rows@[i],

== rq::Poly::add(Poly)
requires
    poly_wf(*this), poly_wf(*rhs), rhs.context == this.context,
ensures
    poly_wf(ret), ret.context == this.context, this.representation == Representation::Ntt, rhs.representation == Representation::Ntt, ret.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (pc(*this, i, k) + pc(*rhs, i, k)) % cq(*this.context, i),

== rq::Poly::sub(Poly)
requires
    poly_wf(*this), poly_wf(*rhs), rhs.context == this.context,
ensures
    poly_wf(ret), ret.context == this.context, this.representation == Representation::Ntt, rhs.representation == Representation::Ntt, ret.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (pc(*this, i, k) - pc(*rhs, i, k)) % cq(*this.context, i),

== rq::Poly::mul(Poly)
requires
    poly_wf(*this), poly_wf(*rhs), rhs.context == this.context,
ensures
    poly_wf(ret), ret.context == this.context, this.representation == Representation::Ntt, rhs.representation == Representation::Ntt, ret.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (pc(*this, i, k) * pc(*rhs, i, k)) % cq(*this.context, i),

== rq::Poly::mul_assign(BigU)
refuses
requires
    poly_wf(*old(this)),
ensures
    poly_wf(*final(this)), final(this).context == old(this).context, old(this).representation == Representation::Ntt, final(this).representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*old(this).context) && 0 <= k < old(this).context.degree ==> #[trigger] final(this).coefficients.rows@[i]@[k] == (pc(*old(this), i, k) * rhs.v()) % cq(*old(this).context, i),
let rhs
    let ghost pb = rhs_1;
exit
    proof { lemma_const_mul(*old(this), pb, rhs_1, *this, rhs.v() as int); }

== rq::Poly::mul(BigU)
requires
    poly_wf(*this),
ensures
    poly_wf(ret), ret.context == this.context, this.representation == Representation::Ntt, ret.representation == Representation::Ntt,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (pc(*this, i, k) * rhs.v()) % cq(*this.context, i),

== rq::Poly::neg()
requires
    poly_wf(*this),
ensures
    poly_wf(ret), ret.context == this.context, ret.representation == this.representation,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (-pc(*this, i, k)) % cq(*this.context, i),
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), poly_wf(tmp), tmp.context == this.context, tmp.representation == this.representation,
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < this.context.degree ==> #[trigger] tmp.coefficients.rows@[i]@[k] == (-pc(*this, i, k)) % cq(*this.context, i),

== rq::Poly::change_representation
refuses
requires
    poly_wf(*old(this)),
ensures
    poly_wf(*final(this)), final(this).context == old(this).context, final(this).representation == to, to != Representation::NttShoup, old(this).representation != Representation::NttShoup,
    old(this).representation == to ==> final(this).coefficients == old(this).coefficients,
    same_den(*old(this), *final(this)),
    old(this).representation == Representation::PowerBasis && to == Representation::Ntt ==> forall|i: int| 0 <= i < ctx_n(*old(this).context) ==> fwd_post(#[trigger] old(this).context.ntt_ops@[i], old(this).coefficients.rows@[i]@, final(this).coefficients.rows@[i]@),
    old(this).representation == Representation::Ntt && to == Representation::PowerBasis ==> forall|i: int| 0 <= i < ctx_n(*old(this).context) ==> bwd_post(#[trigger] old(this).context.ntt_ops@[i], old(this).coefficients.rows@[i]@, final(this).coefficients.rows@[i]@),
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), this.context == old(this).context, this.representation == old(this).representation,
    forall|i: int| 0 <= i < $i ==> fwd_post(#[trigger] this.context.ntt_ops@[i], old(this).coefficients.rows@[i]@, this.coefficients.rows@[i]@),
    forall|i: int| $i <= i < $n ==> #[trigger] this.coefficients.rows@[i] == old(this).coefficients.rows@[i],
inv 1
    $n == ctx_n(*this.context), poly_wf(*this), this.context == old(this).context, this.representation == old(this).representation,
    forall|i: int| 0 <= i < $i ==> bwd_post(#[trigger] this.context.ntt_ops@[i], old(this).coefficients.rows@[i]@, this.coefficients.rows@[i]@),
    forall|i: int| $i <= i < $n ==> #[trigger] this.coefficients.rows@[i] == old(this).coefficients.rows@[i],
exit
    proof { 
      assert forall|i: int, a: Seq<u64>| 0 <= i < ctx_n(*old(this).context) implies #[trigger] denotes(*old(this), i, a) == denotes(*this, i, a) by {
        if old(this).representation == Representation::PowerBasis && to == Representation::Ntt { lemma_fwd_denotes(*old(this), *this, i); }
        if old(this).representation == Representation::Ntt && to == Representation::PowerBasis { lemma_bwd_denotes(*old(this), *this, i); } } }

== rq::Poly::try_from_vec_u64
requires
    ctx_wf(**ctx), a.len() <= ctx.degree,
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == Representation::PowerBasis,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (if k < a.len() { a@[k] as int % cq(**ctx, i) } else { 0 }),
inv 0
    $n == ctx_n(**ctx), ctx_wf(**ctx), poly_wf(poly), poly.context == *ctx, poly.representation == Representation::PowerBasis, a.len() <= ctx.degree,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] poly.coefficients.rows@[i]@[k] == (if i < $i && k < a.len() { a@[k] as int % cq(**ctx, i) } else { 0 }),

== rq::Poly::try_from_vec_i64
requires
    ctx_wf(**ctx), a.len() <= ctx.degree,
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == Representation::PowerBasis,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (if k < a.len() { a@[k] as int % cq(**ctx, i) } else { 0 }),
inv 0
    $n == ctx_n(**ctx), ctx_wf(**ctx), poly_wf(poly), poly.context == *ctx, poly.representation == Representation::PowerBasis, a.len() <= ctx.degree,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] poly.coefficients.rows@[i]@[k] == (if i < $i && k < a.len() { a@[k] as int % cq(**ctx, i) } else { 0 }),

== rq::Poly::try_from_bigint
requires
    ctx_wf(**ctx), a.len() <= ctx.degree,
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == Representation::PowerBasis,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == (if k < a.len() { a@[k].v() as int % cq(**ctx, i) } else { 0 }),
inv 0
    $n == ctx_n(**ctx), ctx_wf(**ctx), poly_wf(poly), poly.context == *ctx, poly.representation == Representation::PowerBasis, a.len() <= ctx.degree,
    forall|i: int, k: int| 0 <= i < ctx_n(**ctx) && 0 <= k < ctx.degree ==> #[trigger] poly.coefficients.rows@[i]@[k] == (if i < $i && k < a.len() { a@[k].v() as int % cq(**ctx, i) } else { 0 }),

== rq::Poly::inverse
requires
    poly_wf(*this), forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> 0 < #[trigger] pc(*this, i, k),
ensures
    poly_wf(ret), ret.context == this.context, ret.representation == this.representation,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> (#[trigger] ret.coefficients.rows@[i]@[k] * pc(*this, i, k)) % cq(*this.context, i) == 1 && 0 < ret.coefficients.rows@[i]@[k],
inv 0
    $n == ctx_n(*this.context), poly_wf(*this), poly_wf(poly), poly.context == this.context, poly.representation == this.representation,
    forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> 0 < #[trigger] pc(*this, i, k),
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < this.context.degree ==> (#[trigger] poly.coefficients.rows@[i]@[k] * pc(*this, i, k)) % cq(*this.context, i) == 1 && 0 < poly.coefficients.rows@[i]@[k],
begin 0
    proof { lemma_ctx(arcv(this.context), $i as int); assert forall|k: int| 0 <= k < this.context.degree implies 0 < #[trigger] this.coefficients.rows@[$i as int]@[k] by { assert(0 < pc(*this, $i as int, k)); } }

== rq::Poly::random
requires
    ctx_wf(**ctx),
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == representation,
inv 0
    $n == ctx_n(**ctx), ctx_wf(**ctx), poly_wf(poly), poly.context == *ctx, poly.representation == representation,

== rq::Poly::random_from_seed
requires
    ctx_wf(**ctx),
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == representation,
inv 0
    $n == ctx_n(**ctx), ctx_wf(**ctx), poly_wf(poly), poly.context == *ctx, poly.representation == representation,

== rq::Poly::random_small
requires
    ctx_wf(**ctx), 1 <= variance <= 16, ctx.degree <= 0x00ff_ffff_ffff_ffff, representation != Representation::NttShoup,
ensures
    poly_wf(ret), ret.context == *ctx, ret.representation == representation,
    forall|i: int, a: Seq<u64>| 0 <= i < ctx_n(**ctx) && is_cbd(*old(rng), variance as nat, cq(**ctx, i), ctx.degree as int, a) ==> #[trigger] denotes(ret, i, a),
let poly 1
    let ghost p1 = poly_1;
exit
    proof { assert forall|i: int, a: Seq<u64>| 0 <= i < ctx_n(**ctx) && is_cbd(*old(rng), variance as nat, cq(**ctx, i), ctx.degree as int, a) implies #[trigger] denotes(ret, i, a) by {
        assert(p1.coefficients.rows@[i]@ =~= a) by { assert forall|k: int| 0 <= k < a.len() implies p1.coefficients.rows@[i]@[k] == a[k] by { } }
        assert(denotes(p1, i, a)); } }

== rq::Vec<BigU>::from(Poly)
requires
    poly_wf(*value),
ensures
    ret.len() == value.context.degree, forall|k: int| 0 <= k < ret.len() ==> (#[trigger] ret@[k]).v() == pval(*value, k),
inv 0
    $n == value.context.degree, $out.len() == $i, poly_wf(*value), forall|k: int| 0 <= k < $i ==> (#[trigger] $out@[k]).v() == pval(*value, k),
begin 0
    proof { assert forall|i: int| 0 <= i < value.coefficients.rows.len() implies $i < (#[trigger] value.coefficients.rows@[i]).len() by {} lemma_pcol(*value, $i as int); lemma_pval(*value, $i as int); }

== rq::Vec<u64>::from(Poly)
requires
    poly_wf(*value), ctx_n(*value.context) == 1,
ensures
    ret.len() == value.context.degree, forall|k: int| 0 <= k < ret.len() ==> #[trigger] ret@[k] == value.coefficients.rows@[0]@[k],
inv 0
    $n == value.context.degree, $out.len() == $i, poly_wf(*value), ctx_n(*value.context) == 1, forall|k: int| 0 <= k < $i ==> #[trigger] $out@[k] == value.coefficients.rows@[0]@[k],
begin 0
    proof { assert forall|i: int| 0 <= i < value.coefficients.rows.len() implies $i < (#[trigger] value.coefficients.rows@[i]).len() by {} lemma_pcol(*value, $i as int); lemma_single(*value, $i as int); }

== rq::RqContext::new
requires
    1 <= moduli_64.len() < 0x1_0000_0000, distinct_primes(moduli_64@), degree < 0x1000_0000_0000_0000,
ensures
    ctx_wf(ret), ret.moduli_64@ == moduli_64@, ret.degree == degree,
decreases
    moduli_64.len()
inv 0
    $n == moduli_64.len(), $out.len() == $i, moduli.len() == $n, forall|i: int| 0 <= i < moduli.len() ==> mod_wf(#[trigger] moduli@[i]) && moduli@[i].p == moduli_64@[i],
    forall|i: int| 0 <= i < $i ==> ntt_wf(#[trigger] $out@[i]) && $out@[i].p == moduli@[i] && $out@[i].size == degree,
let next_ctx
    let ghost L = nlog(ntt_ops@[0]);
    proof { assert(ntt_wf(ntt_ops@[0])); lemma_nlog(ntt_ops@[0]); assert(ntt_ok(ntt_ops@[0].p.p as int, degree as int)); lemma_pow64(); lemma_pow60(); lemma_pow2_strict(L);
       assert forall|j: int| 0 <= j < moduli_64.len() - 1 implies #[trigger] moduli_64@[j] != q_last_of(moduli_64@) && q_last_of(moduli_64@) % (moduli_64@[j] as int) != 0 && q_last_of(moduli_64@) > 0 by {
         let m = moduli_64.len() - 1; assert(moduli_64@[j] != moduli_64@[m]); lemma_distinct_primes_coprime(moduli_64@[m] as nat, moduli_64@[j] as nat); assert(is_prime(moduli_64@[m] as nat)); } }
inv 1
    $n == moduli_64.len() - 1, moduli.len() == moduli_64.len(), q_last == q_last_of(moduli_64@), q_last_inv_mod.len() == $i, q_last_inv_mod_shoup.len() == $i,
    forall|i: int| 0 <= i < moduli.len() ==> mod_wf(#[trigger] moduli@[i]) && moduli@[i].p == moduli_64@[i],
    forall|j: int| 0 <= j < moduli_64.len() - 1 ==> #[trigger] moduli_64@[j] != q_last_of(moduli_64@) && q_last_of(moduli_64@) % (moduli_64@[j] as int) != 0 && q_last_of(moduli_64@) > 0,
    forall|i: int| 0 <= i < $i ==> 0 < #[trigger] q_last_inv_mod@[i] < moduli_64@[i] && (q_last_inv_mod@[i] * q_last_of(moduli_64@)) % (moduli_64@[i] as int) == 1 && q_last_inv_mod_shoup@[i] == shoup_of(q_last_inv_mod@[i] as int, moduli_64@[i] as int),
begin 1
    proof { let p = moduli_64@[$i as int] as int; assert(is_prime(p as nat)); lemma_mod_range(q_last as int, p);
      assert forall|x: int| (#[trigger] (x * (q_last as int % p))) % p == 1 implies (x * q_last) % p == 1 by { lemma_mod_range(q_last as int, p); lemma_cong_mul(x, x, q_last as int % p, q_last as int, p); } }
inv 2
    $out.len() == $i, $i <= degree, forall|k: int| 0 <= k < $i ==> #[trigger] $out@[k] == brv(L, k as nat),
begin 2
    proof { lemma_brv_shift(L, (64 - L) as nat, $i as nat); lemma_brv_bound(L, $i as nat); lemma_pow2_pos((64 - L) as nat);
      lemma_div_multiples_vanish(brv(L, $i as nat) as int, pow2((64 - L) as nat) as int);
      assert forall|l: u32| #[trigger] has_lz(degree as nat, 64, l as int) implies l == 63 - L by { if l < 63 - L { lemma_pow2_mono(L + 1, (63 - l) as nat); lemma_pow2_strict(L); } if l > 63 - L { lemma_pow2_mono((64 - l) as nat, L); } }
    }

== rq::RqContext::switch_iterations
requires
    ctx_wf(*this),
ensures
    match ret { Some(k) => k < ctx_n(*this) && ctx_down(*this, k as nat) == Some(**to_ctx) && forall|j: nat| j < k ==> #[trigger] ctx_down(*this, j) != Some(**to_ctx), None => forall|j: nat| #[trigger] ctx_down(*this, j) != Some(**to_ctx) },
inv 0
    ctx_wf(*curr_ctx), count + curr_ctx.moduli_64.len() == this.moduli_64.len(), ctx_down(*this, count as nat) == Some(*curr_ctx), count < this.moduli_64.len(),
    forall|j: nat| j <= count ==> #[trigger] ctx_down(*this, j) != Some(**to_ctx),
dec 0
    curr_ctx.moduli_64.len()
begin 0
    let ghost c0 = count;
    proof { assert(ctx_down(*this, (c0 + 1) as nat) == Some(*curr_ctx.next_ctx.unwrap())); }
exit
    proof { if ret.is_none() { assert forall|j: nat| #[trigger] ctx_down(*this, j) != Some(**to_ctx) by { if j > count { lemma_ctx_down_none(*this, count as nat, j); } } } }

== rq::Poly::mod_switch_down_next
requires
    poly_wf(*old(this)), ctx_n(*old(this).context) >= 2, old(this).representation == Representation::PowerBasis,
ensures
    poly_wf(*final(this)), final(this).representation == Representation::PowerBasis, final(this).context == old(this).context.next_ctx.unwrap(),
    forall|i: int, k: int| 0 <= i < ctx_n(*final(this).context) && 0 <= k < final(this).context.degree ==> #[trigger] final(this).coefficients.rows@[i]@[k] == switched(*old(this), k) % cq(*old(this).context, i),
entry
    let ghost o = *this; let ghost c = arcv(this.context); let ghost m = ctx_n(c) - 1; let ghost ql = cq(c, m); let ghost h = ql / 2;
    proof { lemma_ctx_all(c); lemma_pow64(); }
inv 0
    $n == 1, this.context == o.context, this.representation == o.representation, this.coefficients.shape(ctx_n(c), c.degree as int), 
    forall|i: int| 0 <= i < m ==> #[trigger] this.coefficients.rows@[i] == o.coefficients.rows@[i], 
    forall|k: int| 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[m]@[k] == (if $i == 1 { (pc(o, m, k) + h) % ql } else { pc(o, m, k) }),
inv 1
    $n == c.degree, this.context == o.context, this.representation == o.representation, this.coefficients.shape(ctx_n(c), c.degree as int), 
    forall|i: int| 0 <= i < m ==> #[trigger] this.coefficients.rows@[i] == o.coefficients.rows@[i], 
    forall|k: int| 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[m]@[k] == (if k < $i { (pc(o, m, k) + h) % ql } else { pc(o, m, k) }),
inv 2
    $n == m, this.context == o.context, this.representation == o.representation, this.coefficients.shape(ctx_n(c), c.degree as int), 
    forall|i: int| $i <= i < m ==> #[trigger] this.coefficients.rows@[i] == o.coefficients.rows@[i], 
    forall|k: int| 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[m]@[k] == (pc(o, m, k) + h) % ql,
    forall|i: int, k: int| 0 <= i < $i && 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[i]@[k] == switched(o, k) % cq(c, i),
inv 3
    $n == c.degree, this.context == o.context, this.representation == o.representation, this.coefficients.shape(ctx_n(c), c.degree as int), $i2 < m,
    forall|i: int| $i2 < i < m ==> #[trigger] this.coefficients.rows@[i] == o.coefficients.rows@[i], 
    forall|k: int| 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[m]@[k] == (pc(o, m, k) + h) % ql,
    forall|i: int, k: int| 0 <= i < $i2 && 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[i]@[k] == switched(o, k) % cq(c, i),
    forall|k: int| 0 <= k < c.degree ==> #[trigger] this.coefficients.rows@[$i2 as int]@[k] == (if k < $i { switched(o, k) % cq(c, $i2 as int) } else { pc(o, $i2 as int, k) }),
    q_last_div_2_mod_qi == cq(c, $i2 as int) - h % cq(c, $i2 as int),
begin 2
    proof { lemma_mod_range(h, cq(c, $i as int)); }
begin 3
    let ghost ii = $i2 as int; let ghost kk = $i as int;
    proof { lemma_mod_range(pc(o, m, kk) + h, ql); assert(pc(o, ii, kk) < cq(c, ii)); lemma_switch(o, ii, kk); }

== rq::Poly::mod_switch_to
requires
    poly_wf(*old(this)), old(this).representation == Representation::PowerBasis, exists|j: nat| #[trigger] ctx_down(*old(this).context, j) == Some(**ctx),
ensures
    poly_wf(*final(this)), final(this).representation == Representation::PowerBasis, *final(this).context == **ctx,
    exists|j: nat| #[trigger] ctx_down(*old(this).context, j) == Some(**ctx) && forall|k: int| 0 <= k < ctx.degree ==> #[trigger] pval(*final(this), k) == pswitch(*old(this).context, pval(*old(this), k), j),
entry
    let ghost o = *this; let ghost oc = arcv(this.context);
inv 0
    poly_wf(o), oc == *o.context, poly_wf(*this), this.representation == Representation::PowerBasis, ctx_down(oc, $i as nat) == Some(*this.context), ctx_down(oc, iterations as nat) == Some(**ctx), iterations < ctx_n(oc),
    forall|k: int| 0 <= k < oc.degree ==> #[trigger] pval(*this, k) == pswitch(oc, pval(o, k), $i as nat),
begin 0
    let ghost pr = *this; let ghost ii = $i as nat;
    proof { lemma_down_len(oc, ii); lemma_down_has(oc, ii + 1); }
end 0
    proof { assert forall|k: int| 0 <= k < oc.degree implies #[trigger] pval(*this, k) == pswitch(oc, pval(o, k), ii + 1) by { lemma_switch_val(pr, *this, k); assert(pval(pr, k) == pswitch(oc, pval(o, k), ii)); } 
      assert(ctx_down(oc, ii + 1) == Some(*this.context)); }
exit
    proof { lemma_down_len(oc, iterations as nat); }

== rq::RqScaler::new
requires
    ctx_wf(**from), ctx_wf(**to), from.degree == to.degree, scaling_factor.denominator.v() > 0, scaling_factor.is_one == (scaling_factor.numerator.v() == scaling_factor.denominator.v()),
ensures
    rqs_wf(ret), ret.from == *from, ret.to == *to, ret.scaling_factor == scaling_factor,
inv 0
    forall|i: int| 0 <= i < $i ==> #[trigger] from.moduli_64@[i] == to.moduli_64@[i], $i <= from.moduli_64.len(), $i <= to.moduli_64.len(),

== rq::RqScaler::scale
requires
    rqs_wf(*this), poly_wf(*p), p.context == this.from,
ensures
    poly_wf(ret), ret.context == this.to, ret.representation == p.representation, p.representation != Representation::NttShoup,
    p.representation == Representation::PowerBasis ==> forall|i: int, k: int| 0 <= i < ctx_n(*this.to) && 0 <= k < this.to.degree ==> #[trigger] ret.coefficients.rows@[i]@[k] == rqs_val(*this, *p, k) % cq(*this.to, i),
    forall|pb: Poly, i: int| poly_wf(pb) && pb.context == p.context && pb.representation == Representation::PowerBasis && same_den(pb, *p) && 0 <= i < ctx_n(*this.to) ==> #[trigger] denotes(ret, i, rqs_row(*this, pb, i)),
    exists|pb: Poly| #[trigger] rqs_src(*p, pb),
decreases
    (if p.representation == Representation::PowerBasis { 0int } else { 1 })
entry
    proof { lemma_ctx_all(arcv(this.to)); lemma_same_den_trans(); lemma_src_all(*p); }
inv 0
    $n == this.to.degree, rqs_wf(*this), poly_wf(*p), p.context == this.from, new_coefficients.shape(ctx_n(*this.to), this.to.degree as int), this.number_common_moduli < ctx_n(*this.to),
    forall|i: int, k: int| 0 <= i < this.number_common_moduli && 0 <= k < this.to.degree ==> #[trigger] new_coefficients.rows@[i]@[k] == p.coefficients.rows@[i]@[k],
    forall|i: int, k: int| this.number_common_moduli <= i < ctx_n(*this.to) && 0 <= k < $i ==> #[trigger] new_coefficients.rows@[i]@[k] == rqs_val(*this, *p, k) % cq(*this.to, i),
begin 0
    let ghost nc = this.number_common_moduli as int; let ghost kk = $i as int;
    proof { assert forall|i: int| 0 <= i < p.coefficients.rows.len() implies $i < (#[trigger] p.coefficients.rows@[i]).len() by {}  assert forall|i: int| 0 <= i < new_coefficients.rows.len() implies $i < (#[trigger] new_coefficients.rows@[i]).len() by {} 
      lemma_col_seq(*p, kk); 
      assert forall|j: int| 0 <= j < pcol(*p, kk).len() implies #[trigger] pcol(*p, kk)[j] < this.from.moduli_64@[j] by { assert(p.coefficients.rows@[j]@[kk] < p.context.moduli_64@[j]); } }
exit
    proof { if p.representation == Representation::PowerBasis { assert(rqs_src(*p, *p)); }
      if p.representation == Representation::PowerBasis {
      assert forall|i: int, k: int| 0 <= i < ctx_n(*this.to) && 0 <= k < this.to.degree implies #[trigger] ret.coefficients.rows@[i]@[k] == rqs_val(*this, *p, k) % cq(*this.to, i) && ret.coefficients.rows@[i]@[k] < this.to.moduli_64@[i] by {
        let q = this.to.moduli_64@[i] as int; assert(q > 0); lemma_mod_range(rqs_val(*this, *p, k), q);
        if i < this.number_common_moduli { lemma_rqs_common(*this, *p, i, k); assert(ret.coefficients.rows@[i]@[k] == p.coefficients.rows@[i]@[k]); } }
      assert(poly_wf(ret));
      assert forall|pb: Poly, i: int| poly_wf(pb) && pb.context == p.context && pb.representation == Representation::PowerBasis && same_den(pb, *p) && 0 <= i < ctx_n(*this.to) implies #[trigger] denotes(ret, i, rqs_row(*this, pb, i)) by { lemma_rqs_den(*this, *p, ret, i); } } }

== rq::Substitution::new
refuses
requires
    ctx_wf(**ctx), ctx.degree <= 0x4000_0000,
ensures
    subst_wf(ret, **ctx), ret.exponent == exponent % ((2 * ctx.degree) as usize),
entry
    let ghost L = clog(arcv(*ctx)); let ghost n = ctx.degree as int;
    proof { lemma_clog(arcv(*ctx), 0); lemma_pow64(); lemma_pow60(); lemma_pow2_strict(L); lemma2_to64(); lemma_mask(L, ctx.degree, (ctx.degree - 1) as usize); }
let power
    proof { assert(exponent_1 % 2 == 1); lemma_pow64(); assert(pow2(1) == 2) by { lemma2_to64(); } }
inv 0
    $out.len() == $i, $i <= n, power == (exponent_1 - 1) / 2 + $i * exponent_1, exponent_1 < 2 * n, forall|j: int| 0 <= j < $i ==> #[trigger] $out@[j] == brv(L, (((exponent_1 - 1) / 2 + j * exponent_1) % n) as nat),
begin 0
    proof { let e = exponent_1 as int; let j = $i as int; let w = (e - 1) / 2 + j * e; let r = (w % n) as nat; assert(0 <= j * e <= 0x4000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= j <= 0x4000_0000, 0 <= e < 0x8000_0000; 
      assert((j + 1) * e == j * e + e) by(nonlinear_arith); lemma_mod_range(w, n);
      lemma_brv_shift(L, (64 - L) as nat, r); lemma_brv_bound(L, r); lemma_pow2_pos((64 - L) as nat);
      lemma_div_multiples_vanish(brv(L, r) as int, pow2((64 - L) as nat) as int);
      assert forall|l: u32| #[trigger] has_lz(ctx.degree as nat, 64, l as int) implies l == 63 - L by { if l < 63 - L { lemma_pow2_mono(L + 1, (63 - l) as nat); lemma_pow2_strict(L); } if l > 63 - L { lemma_pow2_mono((64 - l) as nat, L); } }
    }

== rq::Poly::substitute
isolate 0
isolate 2
requires
    poly_wf(*this), subst_wf(*a, *this.context), this.context.degree <= 0x4000_0000,
ensures
    poly_wf(ret), ret.context == this.context, ret.representation == this.representation,
    forall|i: int, s: Seq<u64>| 0 <= i < ctx_n(*this.context) && #[trigger] denotes(*this, i, s) ==> denotes(ret, i, subst_row(s, a.exponent as int, cq(*this.context, i))),
    this.representation != Representation::PowerBasis ==> forall|i: int, k: int| 0 <= i < ctx_n(*this.context) && 0 <= k < this.context.degree ==> #[trigger] pc(ret, i, k) == pc(*this, i, sub_src(*this.context, a.exponent as int, k)),
entry
    let ghost c = arcv(this.context); let ghost L = clog(c); let ghost n = c.degree as int; let ghost e = a.exponent as int;
    proof { lemma_clog(c, 0); lemma_ctx_all(c); lemma_sub_all_len(e, n); assert(0 * e == 0);
      assert forall|i: int, m: int| 0 <= i < ctx_n(c) && 0 <= m < n implies #[trigger] sub_st(ints(this.coefficients.rows@[i]@), e, n, 0)[m] % cq(c, i) == 0 by { lemma_small_mod(0, cq(c, i) as nat); } }
inv 0
    $n == n, $i <= n, sub_env(c, L, n, e, *a, *this), poly_wf(*this), poly_wf(poly), poly.context == this.context, poly.representation == this.representation, power == $i * e, mask == n - 1,
    forall|i: int, m: int| 0 <= i < ctx_n(c) && 0 <= m < n ==> #[trigger] poly.coefficients.rows@[i]@[m] == sub_st(ints(this.coefficients.rows@[i]@), e, n, $i as nat)[m] % cq(c, i),
begin 0
    let ghost jj = $i as int;
    proof { lemma_mask(L, c.degree, mask); lemma_ctx_all(c); assert(0 <= jj * e <= 0x4000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= jj <= 0x4000_0000, 0 <= e < 0x8000_0000; assert((jj + 1) * e == jj * e + e) by(nonlinear_arith); lemma_mod_range(power as int, n); 
      assert forall|i: int| 0 <= i < ctx_n(c) implies sub_next(#[trigger] this.coefficients.rows@[i]@, e, n, jj) by { lemma_sub_step(ints(this.coefficients.rows@[i]@), e, L, jj as nat); } }
inv 1
    $n == ctx_n(c), sub_env(c, L, n, e, *a, *this), poly_wf(*this), poly_wf(poly), poly.context == this.context, poly.representation == this.representation, power == jj * e, 0 <= jj < n, $i0 == jj, mask == n - 1, 
    forall|i: int| 0 <= i < ctx_n(c) ==> sub_next(#[trigger] this.coefficients.rows@[i]@, e, n, jj),
    forall|i: int, m: int| $i <= i < ctx_n(c) && 0 <= m < n ==> #[trigger] poly.coefficients.rows@[i]@[m] == sub_st(ints(this.coefficients.rows@[i]@), e, n, jj as nat)[m] % cq(c, i),
    forall|i: int, m: int| 0 <= i < $i && 0 <= m < n ==> #[trigger] poly.coefficients.rows@[i]@[m] == sub_st(ints(this.coefficients.rows@[i]@), e, n, (jj + 1) as nat)[m] % cq(c, i),
begin 1
    proof { lemma_mask(L, c.degree, mask); lemma_ctx_all(c); lemma_mod_range(jj * e, n); assert(sub_next(this.coefficients.rows@[$i as int]@, e, n, jj)); let q = cq(c, $i as int); let z = sub_st(ints(this.coefficients.rows@[$i as int]@), e, n, jj as nat)[(jj * e) % n]; lemma_small_mod(0, q as nat); assert(this.coefficients.rows@[$i as int]@[jj] < c.moduli_64@[$i as int]); assert(poly.coefficients.rows@[$i as int]@[(jj * e) % n] == z % q); }
inv 2
    $n == ctx_n(c), sub_env(c, L, n, e, *a, *this), poly_wf(*this), poly_wf(poly), poly.context == this.context, poly.representation == this.representation, 
    forall|i: int, m: int| 0 <= i < $i && 0 <= m < n ==> #[trigger] poly.coefficients.rows@[i]@[m] == this.coefficients.rows@[i]@[sub_src(c, e, m)],
inv 3
    $n == n, sub_env(c, L, n, e, *a, *this), poly_wf(*this), poly_wf(poly), poly.context == this.context, poly.representation == this.representation, $i2 < ctx_n(c),
    forall|i: int, m: int| 0 <= i < $i2 && 0 <= m < n ==> #[trigger] poly.coefficients.rows@[i]@[m] == this.coefficients.rows@[i]@[sub_src(c, e, m)],
    forall|k: int| 0 <= k < $i ==> poly.coefficients.rows@[$i2 as int]@[#[trigger] c.bitrev@[k] as int] == this.coefficients.rows@[$i2 as int]@[a.powers_bitrev@[k] as int],
begin 3
    proof { let k = $i as nat; lemma_brv_bound(L, k); let w = (e - 1) / 2 + k * e; lemma_mod_range(w, n); lemma_brv_bound(L, (w % n) as nat); 
      assert forall|k2: int| 0 <= k2 < k implies #[trigger] c.bitrev@[k2] != brv(L, k) && c.bitrev@[k2] < n by { lemma_brv_bound(L, k2 as nat); if brv(L, k2 as nat) == brv(L, k) { lemma_brv_inj(L, k2 as nat, k); } }
      assert(this.coefficients.rows@[$i2 as int]@[a.powers_bitrev@[k as int] as int] < c.moduli_64@[$i2 as int]); }
after 3
    proof { let r = $i2 as int; assert forall|m: int| 0 <= m < n implies #[trigger] poly.coefficients.rows@[r]@[m] == this.coefficients.rows@[r]@[sub_src(c, e, m)] by { 
      let k = brv(L, m as nat); lemma_brv_bound(L, m as nat); lemma_brv_invol(L, m as nat); assert(brv(L, k) as int == m); assert(k < n); assert(c.bitrev@[k as int] == m); assert(a.powers_bitrev@[k as int] == sub_src(c, e, m)); } }
exit
    proof { assert forall|i: int, s: Seq<u64>| 0 <= i < ctx_n(*this.context) && #[trigger] denotes(*this, i, s) implies denotes(ret, i, subst_row(s, a.exponent as int, cq(*this.context, i))) by {
        let x = ints(this.coefficients.rows@[i]@); assert(x.len() == n); assert(nsubst(x, e) == sub_st(x, e, n, n as nat));
        lemma_subst_den(*this, ret, e, i, s); } }
