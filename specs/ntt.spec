== ntt::supports_ntt
requires
    n < 0x1000_0000_0000_0000,
ensures
    ret ==> ntt_ok(p as int, n as int),
    ntt_ok(p as int, n as int) ==> ret,
entry
    proof { lemma_pow64(); lemma2_to64(); lemma_small_mod((n * 2) as nat, 0x1_0000_0000_0000_0000);
      lemma_pow60();
      if exists|k: nat| k < 64 && n == #[trigger] pow2(k) { let k = choose|k: nat| k < 64 && n == #[trigger] pow2(k); assert(k < 61); }
    }

== ntt::is_primitive_root
requires
    mod_wf(*p), v < p.p, n < p.p,
ensures
    ret == (pow(v as int, n as nat) % p.p as int == 1 && pow(v as int, (n / 2) as nat) % p.p as int != 1),

== ntt::primitive_root
requires
    mod_wf(*p), ntt_ok(p.p as int, n as int),
ensures
    ret < p.p, pow(ret as int, n as nat) % p.p as int == p.p - 1,
refuses
entry
    proof { lemma_ok_bounds(p.p as int, n as int); lemma_div_bounds(p.p as int - 1, 2 * n as int); 
       assert((p.p - 1) / (2 * n as int) <= p.p - 1) by(nonlinear_arith) requires ((p.p - 1) / (2 * n as int)) * (2 * n as int) <= p.p - 1, n >= 8, p.p >= 2; }
inv 0
    mod_wf(*p), ntt_ok(p.p as int, n as int), 0 <= lambda < p.p, 2 * n < p.p, p.p < 0x4000_0000_0000_0000,
end 0
    
exit
    proof { let y = pow(ret as int, n as nat); lemma_pow_adds(ret as int, n as nat, n as nat); lemma_sqrt_one(y, p.p as int); }

== ntt::reduce_4p
requires
    mod_wf(*p), a < 4 * p.p,
ensures
    ret < p.p, ret as int == a as int % p.p as int,
entry
    proof { let q = p.p as int; let r = (if a < 2 * q { a as int } else { a - 2 * q }); lemma_mod_once(r, q); if a >= 2 * q { lemma_cong_intro(a as int, r, 2, q); } }

== ntt::NttOperator::butterfly
requires
    mod_wf(this.p), this.p_twice == 2 * this.p.p, *old(x) < 4 * this.p.p, *old(y) < 4 * this.p.p, w < this.p.p, w_shoup as int == shoup_of(w as int, this.p.p as int),
ensures
    *final(x) < 4 * this.p.p, *final(y) < 4 * this.p.p,
    cong(*final(x) as int, *old(x) + w * *old(y), this.p.p as int), cong(*final(y) as int, *old(x) - w * *old(y), this.p.p as int),
exit
    proof { let p = this.p.p as int; let x0 = *old(x) as int; let y0 = *old(y) as int; let r = if x0 < 2 * p { x0 } else { x0 - 2 * p };
       if x0 >= 2 * p { lemma_cong_intro(x0, r, 2, p); }
       assert(y0 * w == w * y0) by(nonlinear_arith);
       lemma_cong_add(r, x0, t as int, w * y0, p);
       lemma_cong_intro(r + 2 * p - t, r - t, 2, p); }

== ntt::NttOperator::butterfly_inv
requires
    mod_wf(this.p), this.p_twice == 2 * this.p.p, *old(x) < 2 * this.p.p, *old(y) < 2 * this.p.p, z_inv < this.p.p, z_inv_shoup as int == shoup_of(z_inv as int, this.p.p as int),
ensures
    *final(x) < 2 * this.p.p, *final(y) < 2 * this.p.p,
    cong(*final(x) as int, *old(x) + *old(y), this.p.p as int), cong(*final(y) as int, z_inv * (*old(x) - *old(y)), this.p.p as int),
exit
    proof { let p = this.p.p as int; let x0 = *old(x) as int; let y0 = *old(y) as int;
       if x0 + y0 >= 2 * p { lemma_cong_intro(x0 + y0, x0 + y0 - 2 * p, 2, p); }
       let d = 2 * p + x0 - y0;
       lemma_cong_intro(d, x0 - y0, 2, p);
       lemma_cong_mul(d, x0 - y0, z_inv as int, z_inv as int, p);
       assert((x0 - y0) * z_inv == z_inv * (x0 - y0)) by(nonlinear_arith); }

== ntt::NttOperator::forward
requires
    ntt_wf(*this), old(a).len() == this.size, forall|t: int| 0 <= t < old(a).len() ==> #[trigger] old(a)@[t] < 4 * this.p.p,
ensures
    final(a).len() == this.size,
    forall|t: int| 0 <= t < this.size ==> (#[trigger] final(a)@[t]) < this.p.p && final(a)@[t] as int == bev(ints(old(a)@), 0, this.size as nat, npt(*this, t)) % this.p.p as int,
entry
    let ghost a0 = a@; let ghost N = this.size as int; let ghost P = this.p.p as int; let ghost tgt = Seq::new(N as nat, |t: int| bev(ints(a0), 0, N as nat, npt(*this, t)));
    let ghost mut e: nat = nlog(*this);
    proof { lemma_nlog(*this); lemma_pow64(); lemma2_to64(); if e == 0 { } lemma_pow2_unfold(e); e = (e - 1) as nat;
      lemma_pow60();
      lemma_stage_start(*this, ints(a0), tgt); }
inv 0
    a.len() == N, N == this.size, n == N, N < 0x1000_0000_0000_0001, P == this.p.p, ntt_wf(*this), tgt.len() == N,
    l > 0 ==> l == pow2(e), 1 <= m, l > 0 ==> m * (2 * l) == N, l == 0 ==> m == N, k == m,
    l > 0 ==> stage_inv(*this, ints(a@), 2 * l, 1, tgt), l == 0 ==> stage_inv(*this, ints(a@), 1, 1, tgt),
    l > 0 ==> forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 4 * P, l == 0 ==> forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < P,
dec 0
    l
begin 0
    let ghost st = a@; let ghost L0 = l as int; let ghost M0 = m as int;
    proof { assert(M0 <= N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 >= 1, M0 >= 1; assert(2 * L0 <= N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 >= 1, M0 >= 1;
      assert(2 * 0int * L0 == 0) by(nonlinear_arith); assert(2 * M0 <= N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 >= 1, M0 >= 1; }
inv 1
    a.len() == N, k == m + $i, m == M0, l == L0, $n == m,
    forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 4 * P, 0 <= $i <= m, forall|t: int| 0 <= t < N && 2 * $i * L0 > t && L0 == 1 ==> #[trigger] a@[t] < P,
    forall|t: int| 0 <= t < N && t >= 2 * $i * L0 ==> #[trigger] a@[t] == st[t],
    forall|t: int| 0 <= t < N && t < 2 * $i * L0 ==> cong(#[trigger] a@[t] as int, fwd_val(*this, ints(st), L0, M0, t), P),
begin 1
    let ghost cur = a@;
    proof { lemma_block_fit($i as int, M0, L0, N); assert(2 * $i * L0 == $i * (2 * L0)) by(nonlinear_arith); assert(2 * ($i + 1) * L0 == $i * (2 * L0) + 2 * L0) by(nonlinear_arith);
      assert(M0 <= N); assert(0 <= 2 * $i <= 2 * $i * L0) by(nonlinear_arith) requires $i >= 0, L0 >= 1;
      assert forall|q: int| 0 <= q < 2 * L0 implies (#[trigger] (s_of($i as int, L0) + q)) / (2 * L0) == $i && (s_of($i as int, L0) + q) % (2 * L0) == q by { lemma_in_block($i as int, L0, q); }
    }
end 1
    proof {
      assert forall|t: int| 0 <= t < N && t < 2 * ($i + 1) * L0 implies cong(#[trigger] a@[t] as int, fwd_val(*this, ints(st), L0, M0, t), P) by {
        if t < 2 * $i * L0 { assert(a@[t] == cur[t]); assert(cong(cur[t] as int, fwd_val(*this, ints(st), L0, M0, t), P)); }
        else { let q = t - s; assert(s_of($i as int, L0) + q == t); assert(t / (2 * L0) == $i && t % (2 * L0) == q);
          let v = fwd_val(*this, ints(st), L0, M0, t);
          if q < L0 { assert(v == st[t] + omega * st[t + L0]); } else { assert(v == st[t - L0] - omega * st[t]); }
          if L0 == 1 { lemma_mod_range(v, P); if q < L0 { assert(t == s); assert(cong(a@[s as int] as int, v, P)); } else { assert(t == s + 1); assert(cong(a@[s + 1] as int, v, P)); } } else { } }
      }
    }
let omega_shoup
    proof { assert(omega == this.omegas@[M0 + $i1]); assert(omega < P && omega_shoup as int == shoup_of(omega as int, P)); }
inv 2
    a.len() == N, omega < P, omega_shoup as int == shoup_of(omega as int, P), s <= $i <= s + l, $n == s + l, s + 2 * l <= N,
    forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 4 * P,
    forall|t: int| 0 <= t < N && !(s <= t < s + 2 * l) ==> #[trigger] a@[t] == cur[t],
    forall|t: int| $i <= t < s + l ==> #[trigger] a@[t] == st[t],
    forall|t: int| $i + l <= t < s + 2 * l ==> #[trigger] a@[t] == st[t],
    forall|t: int| s <= t < $i ==> cong(#[trigger] a@[t] as int, st[t] + omega * st[t + l], P),
    forall|t: int| s + l <= t < $i + l ==> cong(#[trigger] a@[t] as int, st[t - l] - omega * st[t], P),
end 0
    proof {
      assert(2 * M0 * L0 == N) by(nonlinear_arith) requires M0 * (2 * L0) == N;
      assert forall|t: int| 0 <= t < N implies cong(#[trigger] ints(a@)[t], fwd_val(*this, ints(st), L0, M0, t), P) by { assert(cong(a@[t] as int, fwd_val(*this, ints(st), L0, M0, t), P)); }
      lemma_fwd_stage(*this, ints(st), ints(a@), L0, M0, e, tgt);
      lemma_pow64();
      if e == 0 { } else { lemma_pow2_unfold(e); e = (e - 1) as nat; lemma_pow2_pos(e); assert((2 * M0) * (2 * (L0 / 2)) == N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 % 2 == 0; }
      assert(L0 / 2 == L0 as int / pow2(1) as int); assert(2 * M0 <= N) by(nonlinear_arith) requires 2 * M0 * L0 == N, L0 >= 1, M0 >= 1;
      lemma_small_mod((M0 * 2) as nat, 0x1_0000_0000_0000_0000);
    }
after 0
    proof {
      assert forall|t: int| 0 <= t < N implies (#[trigger] a@[t]) < P && a@[t] as int == bev(ints(a0), 0, N as nat, npt(*this, t)) % P by {
        let x = npt(*this, t); assert(cong(bev(ints(a@), (t / 1) * 1, 1, npt(*this, t)), tgt[t] * 1, P)); assert(t / 1 == t && t * 1 == t);
        lemma_pow0(x); assert(bev(ints(a@), t, 1, x) == bev(ints(a@), t, 0, x) + ints(a@)[t + 1 - 1] * pow(x, 0));
        lemma_canon(a@[t] as int, tgt[t], P);
      }
    }

== ntt::NttOperator::backward
requires
    ntt_wf(*this), old(a).len() == this.size, forall|t: int| 0 <= t < old(a).len() ==> #[trigger] old(a)@[t] < 2 * this.p.p,
ensures
    final(a).len() == this.size,
    forall|t: int| 0 <= t < this.size ==> (#[trigger] final(a)@[t]) < this.p.p,
    forall|t: int| 0 <= t < this.size ==> cong(bev(ints(final(a)@), 0, this.size as nat, #[trigger] npt(*this, t)), old(a)@[t] as int, this.p.p as int),
entry
    let ghost a0 = a@; let ghost N = this.size as int; let ghost P = this.p.p as int; let ghost tgt = ints(a0);
    let ghost mut e: nat = 0; let ghost mut f: nat = nlog(*this);
    proof { lemma_nlog(*this); lemma_pow64(); lemma_pow60(); if f == 0 { } lemma_pow2_unfold(f); f = (f - 1) as nat;
      lemma_stage_start_b(*this, ints(a0)); }
before 0
    proof { assert(m as int * (2 * l as int) == N) by(nonlinear_arith) requires l == 1, 2 * m == N; }
inv 0
    a.len() == N, N == this.size, N < 0x1000_0000_0000_0001, P == this.p.p, ntt_wf(*this), tgt.len() == N,
    l == pow2(e), m > 0 ==> m == pow2(f), m > 0 ==> m * (2 * l) == N, m == 0 ==> l == N, m > 0 ==> k == N - 2 * m,
    stage_inv(*this, ints(a@), l as int, l as int, tgt),
    forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 2 * P,
dec 0
    m
begin 0
    let ghost st = a@; let ghost L0 = l as int; let ghost M0 = m as int;
    proof { lemma_pow2_pos(e); assert(2 * M0 <= N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 >= 1, M0 >= 1; assert(2 * L0 <= N) by(nonlinear_arith) requires M0 * (2 * L0) == N, L0 >= 1, M0 >= 1;
      assert(2 * 0int * L0 == 0) by(nonlinear_arith); }
inv 1
    a.len() == N, k == N - 2 * M0 + $i, m == M0, l == L0, $n == m, 0 <= $i <= m,
    forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 2 * P,
    forall|t: int| 0 <= t < N && t >= 2 * $i * L0 ==> #[trigger] a@[t] == st[t],
    forall|t: int| 0 <= t < N && t < 2 * $i * L0 ==> cong(#[trigger] a@[t] as int, bwd_val(*this, ints(st), L0, M0, t), P),
begin 1
    let ghost cur = a@;
    proof { lemma_block_fit($i as int, M0, L0, N); assert(2 * $i * L0 == $i * (2 * L0)) by(nonlinear_arith); assert(2 * ($i + 1) * L0 == $i * (2 * L0) + 2 * L0) by(nonlinear_arith);
      assert(0 <= 2 * $i <= 2 * $i * L0) by(nonlinear_arith) requires $i >= 0, L0 >= 1;
      assert forall|q: int| 0 <= q < 2 * L0 implies (#[trigger] (s_of($i as int, L0) + q)) / (2 * L0) == $i && (s_of($i as int, L0) + q) % (2 * L0) == q by { lemma_in_block($i as int, L0, q); }
    }
end 1
    proof {
      assert forall|t: int| 0 <= t < N && t < 2 * ($i + 1) * L0 implies cong(#[trigger] a@[t] as int, bwd_val(*this, ints(st), L0, M0, t), P) by {
        if t < 2 * $i * L0 { assert(a@[t] == cur[t]); assert(cong(cur[t] as int, bwd_val(*this, ints(st), L0, M0, t), P)); }
        else { let q = t - s; assert(s_of($i as int, L0) + q == t); assert(t / (2 * L0) == $i && t % (2 * L0) == q);
          let v = bwd_val(*this, ints(st), L0, M0, t);
          if q < L0 { assert(v == st[t] + st[t + L0]); } else { assert(v == zeta_inv * (st[t - L0] - st[t])); } }
      }
    }
let zeta_inv_shoup
    proof { assert(zeta_inv == this.zetas_inv@[N - 2 * M0 + $i1]); assert(zeta_inv < P && zeta_inv_shoup as int == shoup_of(zeta_inv as int, P)); }
inv 2
    a.len() == N, zeta_inv < P, zeta_inv_shoup as int == shoup_of(zeta_inv as int, P), s <= $i <= s + l, $n == s + l, s + 2 * l <= N,
    forall|t: int| 0 <= t < N ==> #[trigger] a@[t] < 2 * P,
    forall|t: int| 0 <= t < N && !(s <= t < s + 2 * l) ==> #[trigger] a@[t] == cur[t],
    forall|t: int| $i <= t < s + l ==> #[trigger] a@[t] == st[t],
    forall|t: int| $i + l <= t < s + 2 * l ==> #[trigger] a@[t] == st[t],
    forall|t: int| s <= t < $i ==> cong(#[trigger] a@[t] as int, st[t] + st[t + l], P),
    forall|t: int| s + l <= t < $i + l ==> cong(#[trigger] a@[t] as int, zeta_inv * (st[t - l] - st[t]), P),
end 0
    proof {
      assert(2 * M0 * L0 == N) by(nonlinear_arith) requires M0 * (2 * L0) == N;
      assert forall|t: int| 0 <= t < N implies cong(#[trigger] ints(a@)[t], bwd_val(*this, ints(st), L0, M0, t), P) by { assert(cong(a@[t] as int, bwd_val(*this, ints(st), L0, M0, t), P)); }
      lemma_bwd_stage(*this, ints(st), ints(a@), L0, M0, e, tgt);
      lemma_pow64(); lemma_pow2_unfold(e + 1); e = e + 1;
      if f == 0 { } else { lemma_pow2_unfold(f); f = (f - 1) as nat; lemma_pow2_pos(f); assert((M0 / 2) * (2 * (2 * L0)) == N) by(nonlinear_arith) requires M0 * (2 * L0) == N, M0 % 2 == 0; }
      lemma_small_mod((L0 * 2) as nat, 0x1_0000_0000_0000_0000);
    }
after 0
    let ghost fin = a@;
inv 3
    a.len() == N, $n == N,
    forall|t: int| 0 <= t < $i ==> (#[trigger] a@[t]) < P && a@[t] as int == (fin[t] * this.size_inv) % P,
    forall|t: int| $i <= t < N ==> #[trigger] a@[t] == fin[t],
after 3
    proof {
      let F = ints(fin); let R = ints(a@); let si = this.size_inv as int;
      assert forall|t: int| 0 <= t < N implies cong(bev(R, 0, N as nat, #[trigger] npt(*this, t)), a0[t] as int, P) by {
        let x = npt(*this, t);
        assert forall|k: int| 0 <= k < N implies cong(#[trigger] R[0 + k], si * F[0 + k] + 0 * F[0 + k], P) by { assert(fin[k] * si == si * fin[k]) by(nonlinear_arith); lemma_mod_range(fin[k] * si, P); assert(a@[k] as int == (fin[k] * this.size_inv) % P); }
        lemma_bev_lin(R, 0, F, 0, si, 0, 0, N as nat, x, P);
        let E = bev(F, 0, N as nat, x);
        lemma_basic_div(t, N); assert(0 * N == 0); assert(cong(bev(F, (t / N) * N, N as nat, npt(*this, t)), tgt[t] * N, P));
        lemma_cong_mul(si, si, E, tgt[t] * N, P); assert(0 * E == 0);
        assert(si * (tgt[t] * N) == (si * N) * tgt[t]) by(nonlinear_arith);
        lemma_small_mod(1, P as nat); lemma_cong_mul(si * N, 1, tgt[t], tgt[t], P);
      }
    }

== ntt::NttOperator::new
requires
    mod_wf(*p), size < 0x1000_0000_0000_0000,
ensures
    ntt_wf(ret), ret.p == *p, ret.size == size,
refuses
let omega
    let ghost P = p.p as int; let ghost N = size as int; let ghost psi = omega as int;
    proof { lemma_ok_bounds(P, N); lemma_pow60();
      if omega == 0 { lemma0_pow(N as nat); lemma_small_mod(0, P as nat); } }
let v_inv
    proof { lemma_pow0(psi); lemma_pow0(omega_inv as int); lemma_small_mod(1, P as nat); }
inv 0
    $n == N + 1, powers.len() == $i, powers_inv.len() == $i, v < P, v_inv < P,
    v as int == pow(psi, $i as nat) % P, v_inv as int == pow(omega_inv as int, $i as nat) % P,
    forall|k: int| 0 <= k < $i ==> (#[trigger] powers@[k]) < P && powers@[k] as int == pow(psi, k as nat) % P,
    forall|k: int| 0 <= k < $i ==> (#[trigger] powers_inv@[k]) < P && powers_inv@[k] as int == pow(omega_inv as int, k as nat) % P,
end 0
    proof { lemma_powmod_step(psi, $i as nat, P); lemma_powmod_step(omega_inv as int, $i as nat, P); }
after 0
    let ghost L = choose|k: nat| k < 61 && N == #[trigger] pow2(k);
    proof { lemma_pow2_strict(L); lemma_pow64(); lemma_pow60(); }
inv 1
    $n == N, omegas.len() == $i, omegas_inv.len() == $i, zetas_inv.len() == $i, powers.len() == N + 1, powers_inv.len() == N + 1,
    forall|k: int| 0 <= k < $i ==> (#[trigger] omegas@[k]) < P && omegas@[k] as int == pow(psi, brv(L, k as nat)) % P,
    forall|k: int| 0 <= k < $i ==> (#[trigger] zetas_inv@[k]) < P && zetas_inv@[k] as int == pow(omega_inv as int, brv(L, k as nat) + 1) % P,
begin 1
    proof { lemma_brv_shift(L, (64 - L) as nat, $i as nat); lemma_brv_bound(L, $i as nat); lemma_pow2_pos((64 - L) as nat);
      lemma_div_multiples_vanish(brv(L, $i as nat) as int, pow2((64 - L) as nat) as int);
      assert forall|l: u32| #[trigger] has_lz(size as nat, 64, l as int) implies l == 63 - L by { if l < 63 - L { lemma_pow2_mono(L + 1, (63 - l) as nat); lemma_pow2_strict(L); } if l > 63 - L { lemma_pow2_mono((64 - l) as nat, L); } }
    }
exit
    proof {
      lemma_brv_half(L); let o = ret;
      lemma_pow1(psi); lemma_small_mod(psi as nat, P as nat);
      assert(npsi(o) == psi);
      assert(nlog(o) == L) by { lemma_pow2_inj(nlog(o), L); }
      assert forall|k: int| 0 <= k < N implies cong(#[trigger] o.omegas@[k] as int, pow(npsi(o), brv(nlog(o), k as nat)), P) by { lemma_mod_range(pow(psi, brv(L, k as nat)), P); }
      assert forall|k: int| 0 <= k < N implies (#[trigger] o.zetas_inv@[k] * pow(npsi(o), brv(nlog(o), k as nat) + 1)) % P == 1 by {
        let e = brv(L, k as nat) + 1; lemma_inv_pow(psi, omega_inv as int, e, P);
        lemma_mod_range(pow(omega_inv as int, e), P);
        lemma_cong_mul(o.zetas_inv@[k] as int, pow(omega_inv as int, e), pow(psi, e), pow(psi, e), P); }
    }
