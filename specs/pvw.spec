== pvw::PvwSk::gen_sk
requires
    2 <= params.q < 0x4000_0000_0000_0000,
ensures
    pvw_sk_wf(ret, *params),
inv 0
    mod_wf(q_mod), q_mod.p == params.q, sk.len() == $i, forall|l: int| 0 <= l < $i ==> (#[trigger] sk@[l])@.len() == params.n && (forall|j: int| 0 <= j < params.n ==> #[trigger] sk@[l]@[j] < params.q),

== pvw::PvwSk::gen_pk
requires
    2 <= params.q < 0x4000_0000_0000_0000, 1 <= params.variance <= 16, params.m <= 0x00ff_ffff_ffff_ffff, pvw_sk_wf(*this, *params),
ensures
    pvw_pk_wf(ret, *params), exists|err: spec_fn(int, int) -> int| #[trigger] pvw_pk_err(ret, *this, *params, err),
entry
    let ghost mut er: spec_fn(int, int) -> int = |i: int, l: int| 0int;
inv 0
    mod_wf(q_mod), q_mod.p == params.q, a.len() == $i, forall|i: int| 0 <= i < $i ==> (#[trigger] a@[i])@.len() == params.n && (forall|j: int| 0 <= j < params.n ==> #[trigger] a@[i]@[j] < params.q),
inv 1
    mod_wf(q_mod), q_mod.p == params.q, sk == this.f0, pvw_sk_wf(*this, *params), 1 <= params.variance <= 16, params.m <= 0x00ff_ffff_ffff_ffff,
    a.len() == params.m, p.len() == params.m, forall|i: int| 0 <= i < params.m ==> (#[trigger] a@[i])@.len() == params.n && (forall|j: int| 0 <= j < params.n ==> #[trigger] a@[i]@[j] < params.q),
    forall|i: int| 0 <= i < params.m ==> (#[trigger] p@[i])@.len() == params.ell && (forall|j: int| 0 <= j < params.ell ==> #[trigger] p@[i]@[j] < params.q),
    forall|i: int, l: int| 0 <= i < params.m && 0 <= l < $i ==> #[trigger] p@[i]@[l] as int == (dotp(sk@[l]@, a@[i]@, params.n as nat) + er(i, l)) % (params.q as int) && -2 * params.variance <= er(i, l) <= 2 * params.variance,
let err
    let ghost er0 = er;
    proof { let ev = t_5@; let li = l_index as int; er = |i: int, l: int| if l == li { ev[i] as int } else { er0(i, l) }; }
inv 2
    mod_wf(q_mod), q_mod.p == params.q, sk == this.f0, pvw_sk_wf(*this, *params), l_index < params.ell, $n == params.m, err.len() == params.m,
    a.len() == params.m, p.len() == params.m, forall|i: int| 0 <= i < params.m ==> (#[trigger] a@[i])@.len() == params.n && (forall|j: int| 0 <= j < params.n ==> #[trigger] a@[i]@[j] < params.q),
    forall|i: int| 0 <= i < params.m ==> (#[trigger] p@[i])@.len() == params.ell && (forall|j: int| 0 <= j < params.ell ==> #[trigger] p@[i]@[j] < params.q),
    forall|i: int| 0 <= i < params.m ==> #[trigger] err@[i] as int == er(i, l_index as int) % (params.q as int) && err@[i] < params.q && -2 * params.variance <= er(i, l_index as int) <= 2 * params.variance,
    forall|i: int, l: int| 0 <= i < params.m && 0 <= l < l_index ==> #[trigger] p@[i]@[l] as int == (dotp(sk@[l]@, a@[i]@, params.n as nat) + er(i, l)) % (params.q as int) && -2 * params.variance <= er(i, l) <= 2 * params.variance,
    forall|i: int| 0 <= i < $i ==> #[trigger] p@[i]@[l_index as int] as int == (dotp(sk@[l_index as int]@, a@[i]@, params.n as nat) + er(i, l_index as int)) % (params.q as int),
before 3
    proof { lemma_small_mod(0, params.q as nat); }
inv 3
    mod_wf(q_mod), q_mod.p == params.q, sk == this.f0, pvw_sk_wf(*this, *params), l_index < params.ell, m_index < params.m, a.len() == params.m, $n == params.n,
    forall|i: int| 0 <= i < params.m ==> (#[trigger] a@[i])@.len() == params.n && (forall|j: int| 0 <= j < params.n ==> #[trigger] a@[i]@[j] < params.q),
    sum < params.q, sum as int == dotp(sk@[l_index as int]@, a@[m_index as int]@, $i as nat) % (params.q as int),
end 3
    proof { lemma_dot_step(sk@[l_index as int]@, a@[m_index as int]@, n_index as nat, product as int, params.q as int); }
after 3
    proof { lemma_mod_add2(dotp(sk@[l_index as int]@, a@[m_index as int]@, params.n as nat), er(m_index as int, l_index as int), params.q as int); }
inv 4
    $n == params.m, a.len() == params.m, p.len() == params.m, $out.len() == $i, forall|i: int| 0 <= i < $i ==> (#[trigger] $out@[i]).b == p@[i] && $out@[i].a == a@[i],
exit
    proof { assert(pvw_pk_err(ret, *this, *params, er)); }

== pvw::PvwSk::decrypt
requires
    2 <= params.q < 0x4000_0000_0000_0000, pvw_sk_wf(*this, *params), pvw_ct_wf(*ct, *params),
ensures
    ret.len() == params.ell, forall|l: int| 0 <= l < params.ell ==> #[trigger] ret@[l] as int == pvw_bit(params.q as int, pvw_phase(*this, *params, *ct, l)),
inv 0
    mod_wf(q_mod), q_mod.p == params.q, sk == this.f0, pvw_sk_wf(*this, *params), pvw_ct_wf(*ct, *params), b.len() == params.ell, $n == params.ell,
    forall|l: int| 0 <= l < $i ==> #[trigger] b@[l] as int == pvw_phase(*this, *params, *ct, l),
    forall|l: int| $i <= l < params.ell ==> #[trigger] b@[l] == ct.b@[l],
before 1
    proof { lemma_small_mod(0, params.q as nat); }
inv 1
    mod_wf(q_mod), q_mod.p == params.q, sk == this.f0, pvw_sk_wf(*this, *params), pvw_ct_wf(*ct, *params), l_index < params.ell, $n == params.n,
    sum < params.q, sum as int == dotp(sk@[l_index as int]@, ct.a@, $i as nat) % (params.q as int),
end 1
    proof { lemma_dot_step(sk@[l_index as int]@, ct.a@, n_index as nat, product as int, params.q as int); }
after 1
    proof { lemma_mod_sub2(ct.b@[l_index as int] as int, dotp(sk@[l_index as int]@, ct.a@, params.n as nat), params.q as int); }
inv 2
    2 <= params.q < 0x4000_0000_0000_0000, b.len() == params.ell, $n == params.ell,
    forall|l: int| 0 <= l < $i ==> #[trigger] b@[l] as int == pvw_bit(params.q as int, pvw_phase(*this, *params, *ct, l)),
    forall|l: int| $i <= l < params.ell ==> #[trigger] b@[l] as int == pvw_phase(*this, *params, *ct, l),
begin 2
    proof { lemma_mod_range(ct.b@[$i as int] as int - dotp(this.f0@[$i as int]@, ct.a@, params.n as nat), params.q as int); lemma_pow64(); }

== pvw::PvwPk::encrypt
requires
    2 <= params.q < 0x4000_0000_0000_0000, pvw_pk_wf(*this, *params), forall|i: int| 0 <= i < m.len() ==> #[trigger] m@[i] < 2,
ensures
    pvw_ct_wf(ret, *params), exists|e: Seq<u64>| #[trigger] pvw_enc(*this, *params, m@, e, ret),
inv 0
    $n == params.m, $out.len() == $i, forall|i: int| 0 <= i < $i ==> #[trigger] $out@[i] < 2,
before 1
    proof { lemma_small_mod(0, params.q as nat); }
inv 1
    mod_wf(q_mod), q_mod.p == params.q, pk == this.f0, pvw_pk_wf(*this, *params), $n == params.m, e.len() == params.m, forall|i: int| 0 <= i < params.m ==> #[trigger] e@[i] < 2,
    b.len() == params.ell, a.len() == params.n,
    forall|l: int| 0 <= l < params.ell ==> #[trigger] b@[l] < params.q && b@[l] as int == psum_b(pk@, e@, l, $i as nat) % (params.q as int),
    forall|l: int| 0 <= l < params.n ==> #[trigger] a@[l] < params.q && a@[l] as int == psum_a(pk@, e@, l, $i as nat) % (params.q as int),
inv 2
    mod_wf(q_mod), q_mod.p == params.q, pk == this.f0, pvw_pk_wf(*this, *params), $n == params.ell, m_index < params.m, e.len() == params.m, forall|i: int| 0 <= i < params.m ==> #[trigger] e@[i] < 2,
    b.len() == params.ell,
    forall|l: int| 0 <= l < $i ==> #[trigger] b@[l] < params.q && b@[l] as int == psum_b(pk@, e@, l, m_index as nat + 1) % (params.q as int),
    forall|l: int| $i <= l < params.ell ==> #[trigger] b@[l] < params.q && b@[l] as int == psum_b(pk@, e@, l, m_index as nat) % (params.q as int),
begin 2
    proof { let q = params.q as int; let s = psum_b(pk@, e@, $i as int, m_index as nat); let x = pk@[m_index as int].b@[$i as int] as int * e@[m_index as int] as int; lemma_mod_add2(s, x, q); lemma_mod_range(x, q); if e@[m_index as int] < q {} else { lemma_small_mod(1, 2); } }
inv 3
    mod_wf(q_mod), q_mod.p == params.q, pk == this.f0, pvw_pk_wf(*this, *params), $n == params.n, m_index < params.m, e.len() == params.m, forall|i: int| 0 <= i < params.m ==> #[trigger] e@[i] < 2,
    a.len() == params.n,
    forall|l: int| 0 <= l < $i ==> #[trigger] a@[l] < params.q && a@[l] as int == psum_a(pk@, e@, l, m_index as nat + 1) % (params.q as int),
    forall|l: int| $i <= l < params.n ==> #[trigger] a@[l] < params.q && a@[l] as int == psum_a(pk@, e@, l, m_index as nat) % (params.q as int),
begin 3
    proof { let q = params.q as int; let s = psum_a(pk@, e@, $i as int, m_index as nat); let x = pk@[m_index as int].a@[$i as int] as int * e@[m_index as int] as int; lemma_mod_add2(s, x, q); lemma_mod_range(x, q); }
inv 4
    mod_wf(q_mod), q_mod.p == params.q, b.len() == params.ell, $n == min_spec(params.ell as int, m.len() as int), forall|i: int| 0 <= i < m.len() ==> #[trigger] m@[i] < 2, 2 <= params.q < 0x4000_0000_0000_0000,
    pvw_pk_wf(*this, *params), 
    forall|l: int| 0 <= l < params.ell ==> #[trigger] b@[l] < params.q,
    forall|l: int| 0 <= l < $i ==> #[trigger] b@[l] as int == (psum_b(this.f0@, e@, l, params.m as nat) + (params.q as int / 2) * m@[l]) % (params.q as int),
    forall|l: int| $i <= l < params.ell ==> #[trigger] b@[l] as int == psum_b(this.f0@, e@, l, params.m as nat) % (params.q as int),
begin 4
    proof { let q = params.q as int; let x = (q / 2) * m@[$i as int] as int; assert(0 <= x < q) by(nonlinear_arith) requires x == (q / 2) * (m@[$i as int] as int), 0 <= m@[$i as int] < 2, q >= 2; lemma_mod_add2(psum_b(this.f0@, e@, $i as int, params.m as nat), x, q); lemma_small_mod(x as nat, q as nat); }
exit
    proof { assert(pvw_enc(*this, *params, m@, e@, ret)); }
