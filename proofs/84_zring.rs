// The laws of Z[X]/(X^n + 1) on coefficient sequences.
pub open spec fn zmono(n: nat, i: int) -> Seq<int> { Seq::new(n, |k: int| if k == i { 1int } else { 0 }) }
proof fn lemma_coef_add_l(a: Seq<int>, a2: Seq<int>, b: Seq<int>, j: nat, k: int)
    requires j <= a.len(), a.len() == a2.len(), ensures nmul_coef(zadd(a, a2), b, j, k) == nmul_coef(a, b, j, k) + nmul_coef(a2, b, j, k), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_coef_add_l(a, a2, b, h, k); let r = nrot(b, h as int)[k]; assert((a[h as int] + a2[h as int]) * r == a[h as int] * r + a2[h as int] * r) by(nonlinear_arith); }
}
proof fn lemma_coef_scale_l(a: Seq<int>, v: int, b: Seq<int>, j: nat, k: int)
    requires j <= a.len(), ensures nmul_coef(zscale(a, v), b, j, k) == v * nmul_coef(a, b, j, k), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_coef_scale_l(a, v, b, h, k); let r = nrot(b, h as int)[k]; let x = a[h as int]; let s = nmul_coef(a, b, h, k);
        assert(v * s + (v * x) * r == v * (s + x * r)) by(nonlinear_arith); } else { assert(v * 0 == 0); }
}
proof fn lemma_coef_add_r(a: Seq<int>, b: Seq<int>, b2: Seq<int>, j: nat, k: int)
    requires j <= a.len() <= b.len(), b.len() == b2.len(), 0 <= k < b.len(), ensures nmul_coef(a, zadd(b, b2), j, k) == nmul_coef(a, b, j, k) + nmul_coef(a, b2, j, k), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_coef_add_r(a, b, b2, h, k); let r = nrot(b, h as int)[k]; let r2 = nrot(b2, h as int)[k]; let x = a[h as int];
        assert(nrot(zadd(b, b2), h as int)[k] == r + r2); assert(x * (r + r2) == x * r + x * r2) by(nonlinear_arith); }
}
proof fn lemma_coef_scale_r(a: Seq<int>, b: Seq<int>, v: int, j: nat, k: int)
    requires j <= a.len() <= b.len(), 0 <= k < b.len(), ensures nmul_coef(a, zscale(b, v), j, k) == v * nmul_coef(a, b, j, k), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_coef_scale_r(a, b, v, h, k); let r = nrot(b, h as int)[k]; let x = a[h as int]; let s = nmul_coef(a, b, h, k);
        assert(nrot(zscale(b, v), h as int)[k] == v * r) by { if k >= h { } else { let y = b[b.len() + k - h]; assert(-(v * y) == v * -y) by(nonlinear_arith); } }
        assert(v * s + x * (v * r) == v * (s + x * r)) by(nonlinear_arith); } else { assert(v * 0 == 0); }
}
pub proof fn lemma_nmul_add_l(a: Seq<int>, a2: Seq<int>, b: Seq<int>) requires a.len() == a2.len(), a.len() == b.len(), ensures nmul(zadd(a, a2), b) == zadd(nmul(a, b), nmul(a2, b)),
{ assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(zadd(a, a2), b)[k] == nmul(a, b)[k] + nmul(a2, b)[k] by { lemma_coef_add_l(a, a2, b, a.len(), k); } assert(nmul(zadd(a, a2), b) =~= zadd(nmul(a, b), nmul(a2, b))); }
pub proof fn lemma_nmul_add_r(a: Seq<int>, b: Seq<int>, b2: Seq<int>) requires a.len() == b.len(), b.len() == b2.len(), ensures nmul(a, zadd(b, b2)) == zadd(nmul(a, b), nmul(a, b2)),
{ assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(a, zadd(b, b2))[k] == nmul(a, b)[k] + nmul(a, b2)[k] by { lemma_coef_add_r(a, b, b2, a.len(), k); } assert(nmul(a, zadd(b, b2)) =~= zadd(nmul(a, b), nmul(a, b2))); }
pub proof fn lemma_nmul_scale_l(a: Seq<int>, v: int, b: Seq<int>) requires a.len() == b.len(), ensures nmul(zscale(a, v), b) == zscale(nmul(a, b), v),
{ assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(zscale(a, v), b)[k] == v * nmul(a, b)[k] by { lemma_coef_scale_l(a, v, b, a.len(), k); } assert(nmul(zscale(a, v), b) =~= zscale(nmul(a, b), v)); }
pub proof fn lemma_nmul_scale_r(a: Seq<int>, b: Seq<int>, v: int) requires a.len() == b.len(), ensures nmul(a, zscale(b, v)) == zscale(nmul(a, b), v),
{ assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(a, zscale(b, v))[k] == v * nmul(a, b)[k] by { lemma_coef_scale_r(a, b, v, a.len(), k); } assert(nmul(a, zscale(b, v)) =~= zscale(nmul(a, b), v)); }
/// X^i b and b X^i are b rotated
proof fn lemma_mono_l(b: Seq<int>, i: int, j: nat, k: int) requires 0 <= i < b.len(), j <= b.len(), 0 <= k < b.len(), ensures nmul_coef(zmono(b.len(), i), b, j, k) == (if i < j { nrot(b, i)[k] } else { 0 }), decreases j,
{ if j > 0 { let h = (j - 1) as nat; lemma_mono_l(b, i, h, k); let r = nrot(b, h as int)[k]; assert(0 * r == 0 && 1 * r == r); } }
proof fn lemma_mono_r(b: Seq<int>, i: int, j: nat, k: int) requires 0 <= i < b.len(), j <= b.len(), 0 <= k < b.len(),
    ensures nmul_coef(b, zmono(b.len(), i), j, k) == (if k >= i { if k - i < j { b[k - i] } else { 0 } } else { if b.len() + k - i < j { -b[b.len() + k - i] } else { 0 } }), decreases j,
{
    if j > 0 { let h = (j - 1) as nat; lemma_mono_r(b, i, h, k); let n = b.len() as int; let m = zmono(b.len(), i); let x = b[h as int]; let r = nrot(m, h as int)[k];
        assert(x * 0 == 0 && x * 1 == x && x * -1 == -x) by(nonlinear_arith);
        if k >= h { assert(r == m[k - h]); } else { assert(r == -m[n + k - h]); }
        if k >= i && k - i == h { assert(r == 1); } else if k < i && n + k - i == h { assert(r == -1); } else { assert(r == 0); } }
}
proof fn lemma_mono(b: Seq<int>, i: int) requires 0 <= i < b.len(), ensures nmul(zmono(b.len(), i), b) == nrot(b, i), nmul(b, zmono(b.len(), i)) == nrot(b, i),
{
    let m = zmono(b.len(), i);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(m, b)[k] == nrot(b, i)[k] by { lemma_mono_l(b, i, b.len(), k); } assert(nmul(m, b) =~= nrot(b, i));
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] nmul(b, m)[k] == nrot(b, i)[k] by { lemma_mono_r(b, i, b.len(), k); } assert(nmul(b, m) =~= nrot(b, i));
}
/// the first j coefficients of a
pub open spec fn ztrunc(a: Seq<int>, j: nat) -> Seq<int> { Seq::new(a.len(), |k: int| if k < j { a[k] } else { 0 }) }
proof fn lemma_trunc_step(a: Seq<int>, j: nat) requires j < a.len(), ensures ztrunc(a, j + 1) == zadd(ztrunc(a, j), zscale(zmono(a.len(), j as int), a[j as int])),
{ let v = a[j as int]; assert(v * 1 == v && v * 0 == 0); assert(ztrunc(a, j + 1) =~= zadd(ztrunc(a, j), zscale(zmono(a.len(), j as int), v))); }
proof fn lemma_nmul_zero(b: Seq<int>) ensures nmul(zzero(b.len()), b) == zzero(b.len()), nmul(b, zzero(b.len())) == zzero(b.len()),
{
    let z = zzero(b.len()); let y = zscale(z, 0); assert(y =~= z); lemma_nmul_scale_l(z, 0, b); lemma_nmul_scale_r(b, z, 0);
    assert(zscale(nmul(z, b), 0) =~= z) by { assert forall|k: int| 0 <= k < b.len() implies #[trigger] zscale(nmul(z, b), 0)[k] == 0 by { assert(0 * nmul(z, b)[k] == 0); } }
    assert(zscale(nmul(b, z), 0) =~= z) by { assert forall|k: int| 0 <= k < b.len() implies #[trigger] zscale(nmul(b, z), 0)[k] == 0 by { assert(0 * nmul(b, z)[k] == 0); } }
}
proof fn lemma_comm_upto(a: Seq<int>, b: Seq<int>, j: nat) requires a.len() == b.len(), j <= a.len(), ensures nmul(ztrunc(a, j), b) == nmul(b, ztrunc(a, j)), decreases j,
{
    if j == 0 { assert(ztrunc(a, 0) =~= zzero(b.len())); lemma_nmul_zero(b); }
    else { let h = (j - 1) as nat; lemma_comm_upto(a, b, h); lemma_trunc_step(a, h); let t = ztrunc(a, h); let m = zmono(a.len(), h as int); let v = a[h as int]; let e = zscale(m, v);
        lemma_nmul_add_l(t, e, b); lemma_nmul_add_r(b, t, e); lemma_nmul_scale_l(m, v, b); lemma_nmul_scale_r(b, m, v); lemma_mono(b, h as int); }
}
/// multiplication is commutative
pub proof fn lemma_nmul_comm(a: Seq<int>, b: Seq<int>) requires a.len() == b.len(), ensures nmul(a, b) == nmul(b, a), { lemma_comm_upto(a, b, a.len()); assert(ztrunc(a, a.len()) =~= a); }
proof fn lemma_rot_rot(b: Seq<int>, i: int, j: int) requires 0 <= i < b.len(), 0 <= j < b.len(), ensures nrot(nrot(b, i), j) == nrot(nrot(b, j), i),
{ let n = b.len() as int; let x = nrot(nrot(b, i), j); let y = nrot(nrot(b, j), i);
  assert forall|k: int| 0 <= k < n implies #[trigger] x[k] == y[k] by { 
    let p = if k >= j { nrot(b, i)[k - j] } else { -nrot(b, i)[n + k - j] }; assert(x[k] == p);
    let r = if k >= i { nrot(b, j)[k - i] } else { -nrot(b, j)[n + k - i] }; assert(y[k] == r); }
  assert(x =~= y); }
proof fn lemma_rot_add(a: Seq<int>, b: Seq<int>, i: int) requires a.len() == b.len(), 0 <= i < b.len(), ensures nrot(zadd(a, b), i) == zadd(nrot(a, i), nrot(b, i)), { assert(nrot(zadd(a, b), i) =~= zadd(nrot(a, i), nrot(b, i))); }
proof fn lemma_rot_scale(a: Seq<int>, v: int, i: int) requires 0 <= i < a.len(), ensures nrot(zscale(a, v), i) == zscale(nrot(a, i), v),
{ let x = nrot(zscale(a, v), i); let y = zscale(nrot(a, i), v); assert forall|k: int| 0 <= k < a.len() implies #[trigger] x[k] == y[k] by { if k < i { let w = a[a.len() + k - i]; assert(-(v * w) == v * -w) by(nonlinear_arith); } } assert(x =~= y); }
/// (X^i b) c == X^i (b c), first j coefficients of c
proof fn lemma_rot_mul(b: Seq<int>, c: Seq<int>, i: int, j: nat) requires b.len() == c.len(), 0 <= i < b.len(), j <= c.len(), ensures nmul(nrot(b, i), ztrunc(c, j)) == nrot(nmul(b, ztrunc(c, j)), i), decreases j,
{
    let r = nrot(b, i);
    if j == 0 { assert(ztrunc(c, 0) =~= zzero(b.len())); lemma_nmul_zero(b); lemma_nmul_zero(r); assert(nrot(zzero(b.len()), i) =~= zzero(b.len())); }
    else { let h = (j - 1) as nat; lemma_rot_mul(b, c, i, h); lemma_trunc_step(c, h); let t = ztrunc(c, h); let m = zmono(c.len(), h as int); let v = c[h as int]; let e = zscale(m, v);
        lemma_nmul_add_r(r, t, e); lemma_nmul_scale_r(r, m, v); lemma_mono(r, h as int); lemma_nmul_add_r(b, t, e); lemma_nmul_scale_r(b, m, v); lemma_mono(b, h as int);
        lemma_rot_rot(b, i, h as int); lemma_rot_add(nmul(b, t), zscale(nrot(b, h as int), v), i); lemma_rot_scale(nrot(b, h as int), v, i); }
}
proof fn lemma_assoc_upto(a: Seq<int>, b: Seq<int>, c: Seq<int>, j: nat) requires a.len() == b.len(), b.len() == c.len(), j <= a.len(), ensures nmul(nmul(ztrunc(a, j), b), c) == nmul(ztrunc(a, j), nmul(b, c)), decreases j,
{
    let p = nmul(b, c);
    if j == 0 { assert(ztrunc(a, 0) =~= zzero(b.len())); lemma_nmul_zero(b); lemma_nmul_zero(c); lemma_nmul_zero(p); }
    else { let h = (j - 1) as nat; lemma_assoc_upto(a, b, c, h); lemma_trunc_step(a, h); let t = ztrunc(a, h); let m = zmono(a.len(), h as int); let v = a[h as int]; let e = zscale(m, v); let r = nrot(b, h as int);
        lemma_nmul_add_l(t, e, b); lemma_nmul_scale_l(m, v, b); lemma_mono(b, h as int); lemma_nmul_add_l(t, e, p); lemma_nmul_scale_l(m, v, p); lemma_mono(p, h as int);
        lemma_nmul_add_l(nmul(t, b), zscale(r, v), c); lemma_nmul_scale_l(r, v, c); lemma_rot_mul(b, c, h as int, c.len()); assert(ztrunc(c, c.len()) =~= c); }
}
/// multiplication is associative
pub proof fn lemma_nmul_assoc(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires a.len() == b.len(), b.len() == c.len(), ensures nmul(nmul(a, b), c) == nmul(a, nmul(b, c)), { lemma_assoc_upto(a, b, c, a.len()); assert(ztrunc(a, a.len()) =~= a); }
/// size of a product
pub proof fn lemma_nmul_norm(a: Seq<int>, b: Seq<int>, A: int, B: int) requires a.len() == b.len(), bounded(a, A), bounded(b, B), A >= 0, B >= 0, ensures bounded(nmul(a, b), a.len() * (A * B)),
{ assert forall|k: int| 0 <= k < b.len() implies -(a.len() * (A * B)) <= #[trigger] nmul(a, b)[k] <= a.len() * (A * B) by { lemma_nmul_bound(a, b, a.len(), k, A, B); } }
