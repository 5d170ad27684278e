// The polynomial operators are the operations of Z_q[X]/(X^N + 1), modulus by modulus.
pub open spec fn radd(a: Seq<u64>, b: Seq<u64>, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| ((a[k] + b[k]) % q) as u64) }
pub open spec fn rsub(a: Seq<u64>, b: Seq<u64>, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| ((a[k] - b[k]) % q) as u64) }
pub open spec fn rneg(a: Seq<u64>, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| ((-a[k]) % q) as u64) }
pub open spec fn rmul(a: Seq<u64>, b: Seq<u64>, q: int) -> Seq<u64> { Seq::new(a.len(), |k: int| (nmul(ints(a), ints(b))[k] % q) as u64) }
/// pointwise c1 x + c2 y of transforms is the transform of c1 a + c2 b
pub proof fn lemma_lin_den(o: NttOperator, a: Seq<u64>, b: Seq<u64>, d: Seq<u64>, fa: Seq<u64>, fb: Seq<u64>, fd: Seq<u64>, c1: int, c2: int)
    requires ntt_wf(o), a.len() == o.size, b.len() == o.size, d.len() == o.size, fd.len() == o.size, fwd_post(o, a, fa), fwd_post(o, b, fb),
      forall|k: int| 0 <= k < o.size ==> cong(#[trigger] d[k] as int, c1 * a[k] + c2 * b[k], o.p.p as int),
      forall|t: int| 0 <= t < o.size ==> #[trigger] fd[t] < o.p.p && cong(fd[t] as int, c1 * fa[t] + c2 * fb[t], o.p.p as int),
    ensures fwd_post(o, d, fd),
{
    let n = o.size as nat; let p = o.p.p as int; let A = ints(a); let B = ints(b); let D = ints(d); let AB = A + B;
    assert forall|t: int| 0 <= t < o.size implies (#[trigger] fd[t]) < o.p.p && fd[t] as int == bev(D, 0, n, npt(o, t)) % p by {
        let x = npt(o, t); let ea = bev(A, 0, n, x); let eb = bev(B, 0, n, x);
        lemma_bev_off(AB, 0, A, 0, n, x); lemma_bev_off(AB, n as int, B, 0, n, x);
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] D[0 + k], c1 * AB[0 + k] + c2 * AB[n + k], p) by { assert(cong(d[k] as int, c1 * a[k] + c2 * b[k], p)); assert(AB[k] == A[k] && AB[n + k] == B[k]); }
        lemma_bev_lin(D, 0, AB, 0, c1, n as int, c2, n, x, p);
        lemma_mod_range(ea, p); lemma_mod_range(eb, p); 
        assert(fa[t] as int == ea % p && fb[t] as int == eb % p);
        lemma_cong_mul(c1, c1, fa[t] as int, ea, p); lemma_cong_mul(c2, c2, fb[t] as int, eb, p); lemma_cong_add(c1 * fa[t], c1 * ea, c2 * fb[t], c2 * eb, p);
        lemma_small_mod(fd[t] as nat, p as nat);
    }
}
pub open spec fn pointwise_add(p: Poly, q: Poly, r: Poly, i: int) -> bool { forall|k: int| 0 <= k < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == (pc(p, i, k) + pc(q, i, k)) % cq(*p.context, i) }
pub open spec fn pointwise_sub(p: Poly, q: Poly, r: Poly, i: int) -> bool { forall|k: int| 0 <= k < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == (pc(p, i, k) - pc(q, i, k)) % cq(*p.context, i) }
pub open spec fn pointwise_mul(p: Poly, q: Poly, r: Poly, i: int) -> bool { forall|k: int| 0 <= k < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == (pc(p, i, k) * pc(q, i, k)) % cq(*p.context, i) }
pub open spec fn pointwise_neg(p: Poly, r: Poly, i: int) -> bool { forall|k: int| 0 <= k < p.context.degree ==> #[trigger] r.coefficients.rows@[i]@[k] == (-pc(p, i, k)) % cq(*p.context, i) }
pub open spec fn ops_pre(p: Poly, q: Poly, r: Poly, i: int) -> bool { poly_wf(p) && poly_wf(q) && poly_wf(r) && q.context == p.context && r.context == p.context && p.representation == Representation::Ntt && q.representation == Representation::Ntt && r.representation == Representation::Ntt && 0 <= i < ctx_n(*p.context) }
pub proof fn lemma_add_den(p: Poly, q: Poly, r: Poly, i: int, a: Seq<u64>, b: Seq<u64>)
    requires ops_pre(p, q, r, i), pointwise_add(p, q, r, i), denotes(p, i, a), denotes(q, i, b), ensures denotes(r, i, radd(a, b, cq(*p.context, i))),
{
    let c = pctx(p); let m = cq(c, i); let o = c.ntt_ops@[i]; lemma_ctx(c, i); let d = radd(a, b, m); let fa = p.coefficients.rows@[i]@; let fb = q.coefficients.rows@[i]@; let fd = r.coefficients.rows@[i]@;
    assert forall|k: int| 0 <= k < o.size implies cong(#[trigger] d[k] as int, 1 * a[k] + 1 * b[k], m) && d[k] < m by { lemma_mod_range(a[k] + b[k], m); }
    assert forall|t: int| 0 <= t < o.size implies #[trigger] fd[t] < m && cong(fd[t] as int, 1 * fa[t] + 1 * fb[t], m) by { assert(r.coefficients.rows@[i]@[t] == (pc(p, i, t) + pc(q, i, t)) % m); lemma_mod_range(fa[t] + fb[t], m); }
    lemma_lin_den(o, a, b, d, fa, fb, fd, 1, 1);
}
pub proof fn lemma_sub_den(p: Poly, q: Poly, r: Poly, i: int, a: Seq<u64>, b: Seq<u64>)
    requires ops_pre(p, q, r, i), pointwise_sub(p, q, r, i), denotes(p, i, a), denotes(q, i, b), ensures denotes(r, i, rsub(a, b, cq(*p.context, i))),
{
    let c = pctx(p); let m = cq(c, i); let o = c.ntt_ops@[i]; lemma_ctx(c, i); let d = rsub(a, b, m); let fa = p.coefficients.rows@[i]@; let fb = q.coefficients.rows@[i]@; let fd = r.coefficients.rows@[i]@;
    assert forall|k: int| 0 <= k < o.size implies cong(#[trigger] d[k] as int, 1 * a[k] + (-1) * b[k], m) && d[k] < m by { lemma_mod_range(a[k] - b[k], m); }
    assert forall|t: int| 0 <= t < o.size implies #[trigger] fd[t] < m && cong(fd[t] as int, 1 * fa[t] + (-1) * fb[t], m) by { assert(r.coefficients.rows@[i]@[t] == (pc(p, i, t) - pc(q, i, t)) % m); lemma_mod_range(fa[t] - fb[t], m); }
    lemma_lin_den(o, a, b, d, fa, fb, fd, 1, -1);
}
pub proof fn lemma_neg_den(p: Poly, r: Poly, i: int, a: Seq<u64>)
    requires poly_wf(p), poly_wf(r), r.context == p.context, r.representation == p.representation, 0 <= i < ctx_n(*p.context), pointwise_neg(p, r, i), denotes(p, i, a), ensures denotes(r, i, rneg(a, cq(*p.context, i))),
{
    let c = pctx(p); let m = cq(c, i); let o = c.ntt_ops@[i]; lemma_ctx(c, i); let d = rneg(a, m); let fa = p.coefficients.rows@[i]@; let fd = r.coefficients.rows@[i]@;
    assert forall|k: int| 0 <= k < o.size implies cong(#[trigger] d[k] as int, (-1) * a[k] + 0 * a[k], m) && d[k] < m && d[k] as int == (-a[k]) % m by { lemma_mod_range(-a[k], m); assert(0 * a[k] == 0); }
    assert forall|t: int| 0 <= t < o.size implies #[trigger] fd[t] < m && cong(fd[t] as int, (-1) * fa[t] + 0 * fa[t], m) && fd[t] as int == (-fa[t]) % m by { assert(r.coefficients.rows@[i]@[t] == (-pc(p, i, t)) % m); lemma_mod_range(-fa[t], m); assert(0 * fa[t] == 0); }
    if p.representation == Representation::PowerBasis { assert(fd =~= d); } else { lemma_lin_den(o, a, a, d, fa, fa, fd, -1, 0); }
}
pub proof fn lemma_mul_den(p: Poly, q: Poly, r: Poly, i: int, a: Seq<u64>, b: Seq<u64>)
    requires ops_pre(p, q, r, i), pointwise_mul(p, q, r, i), denotes(p, i, a), denotes(q, i, b), ensures denotes(r, i, rmul(a, b, cq(*p.context, i))),
{
    let c = pctx(p); let m = cq(c, i); let o = c.ntt_ops@[i]; lemma_ctx(c, i); let d = rmul(a, b, m); let fa = p.coefficients.rows@[i]@; let fb = q.coefficients.rows@[i]@; let fd = r.coefficients.rows@[i]@; let n = o.size as nat;
    let w = nmul(ints(a), ints(b));
    assert forall|k: int| 0 <= k < n implies cong(#[trigger] d[k] as int, w[k], m) && d[k] < m by { lemma_mod_range(w[k], m); }
    assert forall|t: int| 0 <= t < o.size implies (#[trigger] fd[t]) < o.p.p && fd[t] as int == bev(ints(d), 0, n, npt(o, t)) % m by {
        let x = npt(o, t); let A = bev(ints(a), 0, n, x); let B = bev(ints(b), 0, n, x);
        lemma_nmul_eval(o, ints(a), ints(b), t);
        assert(fa[t] as int == A % m && fb[t] as int == B % m); assert(r.coefficients.rows@[i]@[t] == (pc(p, i, t) * pc(q, i, t)) % m);
        lemma_mod_range(A, m); lemma_mod_range(B, m); lemma_mod_range(fa[t] * fb[t], m); lemma_cong_mul(fa[t] as int, A, fb[t] as int, B, m);
        assert forall|k: int| 0 <= k < n implies cong(#[trigger] ints(d)[0 + k], w[0 + k], m) by { assert(cong(d[k] as int, w[k], m)); }
        lemma_bev_cong(ints(d), w, 0, n, x, x, m);
    }
}
