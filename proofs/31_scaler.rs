// Scaling between residue number systems: fixed-point projections and the distance of the result to the exact quotient.
pub open spec fn two127() -> int { 0x8000_0000_0000_0000_0000_0000_0000_0000int }
pub open spec fn two126() -> int { 0x4000_0000_0000_0000_0000_0000_0000_0000int }
/// round-half-up quotient of num * x by den
pub open spec fn rq(num: int, den: int, x: int) -> int { (num * x + den / 2) / den }
/// num * x - den * rq
pub open spec fn re(num: int, den: int, x: int) -> int { num * x - den * rq(num, den, x) }
/// fixed-point error (127 fractional bits), rounded down / up
pub open spec fn tdn(num: int, den: int, x: int) -> int { (re(num, den, x) * two127()) / den }
pub open spec fn tup(num: int, den: int, x: int) -> int { -((-re(num, den, x) * two127()) / den) }
pub open spec fn sgn(s: bool, lo: u64, hi: u64) -> int { if s { -(lo + 0x1_0000_0000_0000_0000 * hi) } else { lo + 0x1_0000_0000_0000_0000 * hi } }
pub open spec fn snum(sc: RnsScaler) -> int { sc.scaling_factor.numerator.v() as int }
pub open spec fn sden(sc: RnsScaler) -> int { sc.scaling_factor.denominator.v() as int }
pub open spec fn sq(sc: RnsScaler) -> int { sc.from.product.v() as int }
pub open spec fn sgs(sc: RnsScaler) -> Seq<int> { bigs(sc.from.garner@) }
pub open spec fn map_rq(num: int, den: int, g: Seq<int>) -> Seq<int> { Seq::new(g.len(), |j: int| rq(num, den, g[j])) }
pub open spec fn map_tup(num: int, den: int, g: Seq<int>) -> Seq<int> { Seq::new(g.len(), |j: int| tup(num, den, g[j])) }
pub open spec fn map_re(num: int, den: int, g: Seq<int>) -> Seq<int> { Seq::new(g.len(), |j: int| re(num, den, g[j])) }
pub open spec fn map_tg(q: int, sh: nat, g: Seq<int>) -> Seq<int> { Seq::new(g.len(), |j: int| (g[j] * (pow2(sh) as int) + q / 2) / q) }
pub open spec fn scaler_ok(from: RnsContext, to: RnsContext) -> bool { rns_wf(from) && rns_wf(to) && from.moduli_u64.len() < 0x1_0000_0000 }
pub open spec fn scaler_wf(sc: RnsScaler) -> bool {
    let n = sc.from.moduli_u64.len(); let m = sc.to.moduli_u64.len(); let N = snum(sc); let D = sden(sc);
    &&& scaler_ok(*sc.from, *sc.to)
    &&& D > 0 && sc.scaling_factor.is_one == (N == D)
    &&& sc.gamma.len() == m && sc.gamma_shoup.len() == m && sc.omega.len() == m && sc.omega_shoup.len() == m
    &&& forall|i: int| 0 <= i < m ==> #[trigger] sc.gamma@[i] == rq(N, D, sq(sc)) % (sc.to.moduli_u64@[i] as int)
    &&& forall|i: int| 0 <= i < m ==> #[trigger] sc.gamma_shoup@[i] == shoup_of(sc.gamma@[i] as int, sc.to.moduli_u64@[i] as int)
    &&& forall|i: int| 0 <= i < m ==> (#[trigger] sc.omega@[i]).len() == n && sc.omega_shoup@[i].len() == n
    &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] sc.omega@[i]@[j] == map_rq(N, D, sgs(sc))[j] % (sc.to.moduli_u64@[i] as int)
    &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] sc.omega_shoup@[i]@[j] == shoup_of(sc.omega@[i]@[j] as int, sc.to.moduli_u64@[i] as int)
    &&& sgn(sc.theta_gamma_sign, sc.theta_gamma_lo, sc.theta_gamma_hi) == tdn(N, D, sq(sc)) && sgn(false, sc.theta_gamma_lo, sc.theta_gamma_hi) <= two126()
    &&& sc.theta_omega_lo.len() == n && sc.theta_omega_hi.len() == n && sc.theta_omega_sign.len() == n
    &&& forall|j: int| 0 <= j < n ==> sgn(#[trigger] sc.theta_omega_sign@[j], sc.theta_omega_lo@[j], sc.theta_omega_hi@[j]) == map_tup(N, D, sgs(sc))[j] && sgn(false, sc.theta_omega_lo@[j], sc.theta_omega_hi@[j]) <= two126()
    &&& sc.theta_garner_lo.len() == n && sc.theta_garner_hi.len() == n
    &&& 97 <= sc.theta_garner_shift <= 127
    &&& forall|j: int| 0 <= j < n ==> #[trigger] sc.from.moduli_u64@[j] * n < pow2((192 - sc.theta_garner_shift) as nat)
    &&& forall|j: int| 0 <= j < n ==> sgn(false, #[trigger] sc.theta_garner_lo@[j], sc.theta_garner_hi@[j]) == map_tg(sq(sc), sc.theta_garner_shift as nat, sgs(sc))[j] && sgn(false, sc.theta_garner_lo@[j], sc.theta_garner_hi@[j]) <= pow2(sc.theta_garner_shift as nat)
}
/// the quotient the scaler subtracts: x is represented by S - v Q
pub open spec fn scale_v(sc: RnsScaler, r: Seq<int>) -> int { (dot(r, map_tg(sq(sc), sc.theta_garner_shift as nat, sgs(sc)), r.len()) / (pow2((sc.theta_garner_shift - 1) as nat) as int) + 1) / 2 }
pub open spec fn scale_s(sc: RnsScaler, r: Seq<int>) -> int { dot(r, map_tup(snum(sc), sden(sc), sgs(sc)), r.len()) - scale_v(sc, r) * tdn(snum(sc), sden(sc), sq(sc)) }
pub open spec fn scale_w(sc: RnsScaler, r: Seq<int>) -> int { (scale_s(sc, r) + two126()) / two127() }
/// the integer whose residues scale returns
pub open spec fn scale_z(sc: RnsScaler, r: Seq<int>) -> int { dot(r, map_rq(snum(sc), sden(sc), sgs(sc)), r.len()) - scale_v(sc, r) * rq(snum(sc), sden(sc), sq(sc)) + scale_w(sc, r) }
/// the representative of the input that is scaled
pub open spec fn scale_x(sc: RnsScaler, r: Seq<int>) -> int { dot(r, sgs(sc), r.len()) - scale_v(sc, r) * sq(sc) }
pub open spec fn isum(r: Seq<int>, n: nat) -> int decreases n { if n == 0 { 0 } else { isum(r, (n - 1) as nat) + r[n - 1] } }

pub proof fn lemma_theta(num: int, den: int, x: int)
    requires num >= 0, den > 0, x >= 0,
    ensures ({ let r = (num * x) % den; let f = r + den / 2 >= den; let th = if f { den - r } else { r };
        &&& re(num, den, x) == (if f { -th } else { th }) && 0 <= th <= den && 2 * th <= den
        &&& th * two127() >= 0 && (th * two127()) / den <= two126() && (th * two127() + den - 1) / den <= two126()
        &&& (th * two127()) / den >= 0 && (th * two127() + den - 1) / den >= 0
        &&& tdn(num, den, x) == (if f { -((th * two127() + den - 1) / den) } else { (th * two127()) / den })
        &&& tup(num, den, x) == (if f { -((th * two127()) / den) } else { (th * two127() + den - 1) / den })
    }),
{
    let nx = num * x; assert(nx >= 0) by(nonlinear_arith) requires num >= 0, x >= 0, nx == num * x;
    lemma_fundamental_div_mod(nx, den); lemma_mod_range(nx, den);
    let q = nx / den; let r = nx % den; let h = den / 2; let f = r + h >= den; let th = if f { den - r } else { r };
    assert(nx + h == q * den + (r + h)) by(nonlinear_arith) requires nx == den * q + r;
    lemma_div_split(q, r + h, den);
    if f { lemma_div_split(1, r + h - den, den); lemma_basic_div(r + h - den, den); } else { lemma_basic_div(r + h, den); }
    assert(rq(num, den, x) == (if f { q + 1 } else { q }));
    assert(den * (q + 1) == den * q + den) by(nonlinear_arith);
    let e = re(num, den, x);
    let t = th * two127();
    assert(0 <= t && t <= den * two126()) by(nonlinear_arith) requires t == th * two127(), 0 <= th, 2 * th <= den, two127() == 2 * two126(), two126() > 0;
    lemma_div_bounds(t, den); lemma_div_bounds(t + den - 1, den);
    let a = t / den; let b = (t + den - 1) / den;
    assert(a <= two126()) by(nonlinear_arith) requires a * den <= t, t <= den * two126(), den > 0;
    assert(b <= two126()) by(nonlinear_arith) requires b * den <= t + den - 1, t <= den * two126(), den > 0;
    // floor of the negated value
    let c = (-t) / den; lemma_div_bounds(-t, den);
    assert(c == -b) by(nonlinear_arith) requires c * den <= -t, -t < c * den + den, b * den <= t + den - 1, t + den - 1 < b * den + den, den > 0;
    assert(-t == (-th) * two127()) by(nonlinear_arith) requires t == th * two127();
    assert(e == (if f { -th } else { th }));
    assert(-e * two127() == (if f { t } else { -t }));
    assert(e * two127() == (if f { -t } else { t }));
}
/// bounds of the rounded fixed-point errors
pub proof fn lemma_theta_bounds(num: int, den: int, x: int) requires num >= 0, den > 0, x >= 0,
    ensures tdn(num, den, x) * den <= re(num, den, x) * two127() < tdn(num, den, x) * den + den, tup(num, den, x) * den - den < re(num, den, x) * two127() <= tup(num, den, x) * den,
      -two126() <= tdn(num, den, x) <= two126(), -two126() <= tup(num, den, x) <= two126(),
{
    lemma_theta(num, den, x); let e = re(num, den, x) * two127(); lemma_div_bounds(e, den); lemma_div_bounds(-e, den);
    assert(-re(num, den, x) * two127() == -e) by(nonlinear_arith) requires e == re(num, den, x) * two127();
    let c = (-e) / den; assert(tup(num, den, x) == -c); assert((-c) * den == -(c * den)) by(nonlinear_arith);
}
pub proof fn lemma_dot_bound(x: Seq<int>, c: Seq<int>, n: nat, m: int) requires n <= x.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> -m <= (#[trigger] x[i]) * c[i] <= m,
    ensures -(n * m) <= dot(x, c, n) <= n * m, decreases n,
{ if n > 0 { lemma_dot_bound(x, c, (n - 1) as nat, m); assert((n - 1) * m + m == n * m) by(nonlinear_arith); } else { assert(0 * m == 0); } }
pub proof fn lemma_dot_scaled(x: Seq<int>, a: Seq<int>, b: Seq<int>, n: nat, k: int, l: int, lo: int, hi: int)
    requires n <= x.len(), n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] x[i] >= 0, forall|i: int| 0 <= i < n ==> lo <= k * (#[trigger] a[i]) - l * b[i] <= hi,
    ensures lo * isum(x, n) <= k * dot(x, a, n) - l * dot(x, b, n) <= hi * isum(x, n), isum(x, n) >= 0, decreases n,
{
    if n > 0 {
        let h = (n - 1) as nat; lemma_dot_scaled(x, a, b, h, k, l, lo, hi);
        let y = x[n - 1]; let s = a[n - 1]; let t = b[n - 1]; let A = dot(x, a, h); let B = dot(x, b, h); let I = isum(x, h);
        assert(lo <= k * a[h as int] - l * b[h as int] <= hi); assert(x[h as int] >= 0);
        let d = k * s - l * t;
        assert(lo * y <= d * y <= hi * y) by(nonlinear_arith) requires lo <= d <= hi, y >= 0;
        assert(k * (A + y * s) - l * (B + y * t) == (k * A - l * B) + d * y) by(nonlinear_arith) requires d == k * s - l * t;
        assert(lo * (I + y) == lo * I + lo * y) by(nonlinear_arith);
        assert(hi * (I + y) == hi * I + hi * y) by(nonlinear_arith);
    } else { assert(k * 0 == 0); assert(l * 0 == 0); assert(lo * 0 == 0); assert(hi * 0 == 0); }
}
pub proof fn lemma_dot_lin(x: Seq<int>, e: Seq<int>, a: Seq<int>, b: Seq<int>, n: nat, k: int, l: int)
    requires n <= x.len(), n <= a.len(), n <= b.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> #[trigger] e[i] == k * a[i] - l * b[i],
    ensures dot(x, e, n) == k * dot(x, a, n) - l * dot(x, b, n), decreases n,
{
    if n > 0 {
        let h = (n - 1) as nat; lemma_dot_lin(x, e, a, b, h, k, l);
        let y = x[n - 1]; let s = a[n - 1]; let t = b[n - 1]; let A = dot(x, a, h); let B = dot(x, b, h);
        assert(e[h as int] == k * s - l * t);
        assert(k * (A + y * s) - l * (B + y * t) == (k * A - l * B) + y * (k * s - l * t)) by(nonlinear_arith);
    } else { assert(k * 0 == 0); assert(l * 0 == 0); }
}
pub proof fn lemma_dot_zero(x: Seq<int>, c: Seq<int>, n: nat) requires n <= x.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> #[trigger] c[i] == 0, ensures dot(x, c, n) == 0, decreases n,
{ if n > 0 { lemma_dot_zero(x, c, (n - 1) as nat); assert(c[n - 1] == 0); let y = x[n - 1]; assert(y * 0 == 0); } }
pub proof fn lemma_rq_one(d: int, x: int) requires d > 0, x >= 0, ensures rq(d, d, x) == x, re(d, d, x) == 0, tdn(d, d, x) == 0, tup(d, d, x) == 0,
{ assert(d * x == x * d) by(nonlinear_arith); lemma_div_split(x, d / 2, d); lemma_basic_div(d / 2, d); assert(0 * two127() == 0); lemma_basic_div(0, d); }
/// how far the returned integer lies from numerator * x / denominator, and how far x lies from the centre
pub proof fn lemma_scale_accuracy(sc: RnsScaler, r: Seq<int>)
    requires scaler_wf(sc), r.len() == sc.from.moduli_u64.len(), forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] < sc.from.moduli_u64@[i],
    ensures
      ({ let d = sden(sc) * scale_z(sc, r) - snum(sc) * scale_x(sc, r); let v = scale_v(sc, r);
         v >= 0 && -(sden(sc) * two126()) <= two127() * d <= sden(sc) * (two126() + isum(r, r.len()) + v) }),
      ({ let P = pow2(sc.theta_garner_shift as nat) as int; let Q = sq(sc); let x = scale_x(sc, r);
         2 * (P * x) <= Q * P + Q * isum(r, r.len()) && -(Q * P + Q * isum(r, r.len())) <= 2 * (P * x) }),
      scale_x(sc, r) % sq(sc) == dot(r, sgs(sc), r.len()) % sq(sc), isum(r, r.len()) >= 0,
      snum(sc) == sden(sc) ==> scale_z(sc, r) == scale_x(sc, r),
{
    let N = snum(sc); let D = sden(sc); let Q = sq(sc); let n = r.len(); let g = sgs(sc); let v = scale_v(sc, r); let w = scale_w(sc, r); let s = scale_s(sc, r);
    let om = map_rq(N, D, g); let tu = map_tup(N, D, g); let tg = map_tg(Q, sc.theta_garner_shift as nat, g);
    let S = dot(r, g, n); let I = isum(r, n); let T = dot(r, tg, n);
    let sp = sc.from.moduli_u64@;
    assert forall|k: int| 0 <= k < sp.len() implies #[trigger] sp[k] > 0 by { assert(is_prime(sp[k] as nat)); }
    lemma_prodq_pos(sp, sp.len());
    assert(Q > 0);
    let sh = sc.theta_garner_shift as nat; let P = pow2(sh) as int; let H = pow2((sh - 1) as nat) as int; lemma_pow2_pos(sh); lemma_pow2_pos((sh - 1) as nat); lemma_pow2_unfold(sh);
    // garner side
    assert forall|i: int| 0 <= i < n implies -(Q) <= 2 * Q * (#[trigger] tg[i]) - 2 * P * g[i] <= Q by {
        let x = g[i] * P + Q / 2; lemma_div_bounds(x, Q);
        let t = x / Q; assert(2 * Q * t == 2 * (t * Q)) by(nonlinear_arith); assert(2 * P * g[i] == 2 * (g[i] * P)) by(nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] r[i] >= 0 by { assert(r[i] < sp[i]); }
    lemma_dot_scaled(r, tg, g, n, 2 * Q, 2 * P, -Q, Q);
    assert(T >= 0) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] tg[i] >= 0 by { let a = g[i]; assert(a >= 0); assert(a * P >= 0) by(nonlinear_arith) requires a >= 0, P > 0; lemma_div_bounds(a * P + Q / 2, Q); }
        lemma_dot_nonneg(r, tg, n); }
    let a = T / H; lemma_div_bounds(T, H);
    assert(P == 2 * H);
    // 2 v - 1 <= a <= 2 v
    assert(v == (a + 1) / 2);
    assert(2 * v * H - H <= T && T < 2 * v * H + H) by(nonlinear_arith) requires a * H <= T, T < a * H + H, a == 2 * v - 1 || a == 2 * v, H > 0;
    let x = S - v * Q;
    assert(2 * (P * x) <= Q * P + Q * I && -(Q * P + Q * I) <= 2 * (P * x)) by(nonlinear_arith)
        requires x == S - v * Q, P == 2 * H, 2 * v * H - H <= T, T < 2 * v * H + H, -Q * I <= 2 * Q * T - 2 * P * S, 2 * Q * T - 2 * P * S <= Q * I, Q > 0, H > 0;
    lemma_cong_intro(S, x, v, Q);
    // omega side: e_j = N g_j - D om_j with  D tu_j - D < 2^127 e_j <= D tu_j
    let es = map_re(N, D, g); let E = dot(r, es, n); let O = dot(r, om, n); let TU = dot(r, tu, n);
    assert forall|i: int| 0 <= i < n implies 0 <= D * (#[trigger] tu[i]) - two127() * es[i] <= D by { assert(g[i] >= 0); lemma_theta_bounds(N, D, g[i]); let t = tu[i]; assert(D * t == t * D) by(nonlinear_arith); assert(two127() * es[i] == es[i] * two127()) by(nonlinear_arith); }
    lemma_dot_scaled(r, tu, es, n, D, two127(), 0, D);
    assert forall|i: int| 0 <= i < n implies #[trigger] es[i] == N * g[i] - D * om[i] by { }
    lemma_dot_lin(r, es, g, om, n, N, D);
    assert(0 * I == 0);
    let Eg = re(N, D, Q); let G = rq(N, D, Q); let Tg = tdn(N, D, Q);
    lemma_theta_bounds(N, D, Q);
    assert(v >= 0);
    assert(s == TU - v * Tg);
    lemma_div_bounds(s + two126(), two127());
    let e = E - v * Eg; let Z = O - v * G + w;
    assert(D * Z - N * x == w * D - e) by(nonlinear_arith) requires Z == O - v * G + w, x == S - v * Q, e == E - v * Eg, E == N * S - D * O, Eg == N * Q - D * G;
    assert(0 <= D * s - two127() * e <= D * I + D * v) by {
        assert(v * (Tg * D) <= v * (Eg * two127()) <= v * (Tg * D + D)) by(nonlinear_arith) requires v >= 0, Tg * D <= Eg * two127(), Eg * two127() <= Tg * D + D;
        assert(D * s == D * TU - v * (Tg * D)) by(nonlinear_arith) requires s == TU - v * Tg;
        assert(two127() * e == two127() * E - v * (Eg * two127())) by(nonlinear_arith) requires e == E - v * Eg;
        assert(v * (Tg * D + D) == v * (Tg * D) + D * v) by(nonlinear_arith);
    }
    let W = two127() * w;
    assert(W == w * two127());
    assert(s - two126() < W && W <= s + two126());
    assert(-(D * two126()) <= D * W - D * s <= D * two126()) by(nonlinear_arith) requires s - two126() < W, W <= s + two126(), D > 0;
    let d = D * Z - N * x;
    assert(two127() * d == D * W - two127() * e) by(nonlinear_arith) requires d == w * D - e, W == w * two127();
    assert(D * (two126() + I + v) == D * two126() + D * I + D * v) by(nonlinear_arith);
    if N == D {
        assert(d == D * (Z - x)) by(nonlinear_arith) requires d == D * Z - N * x, N == D;
        assert forall|i: int| 0 <= i < n implies #[trigger] es[i] == 0 by { lemma_rq_one(D, g[i]); }
        lemma_rq_one(D, Q); lemma_dot_zero(r, es, n); assert(v * 0 == 0); assert(e == 0);
        assert forall|i: int| 0 <= i < n implies #[trigger] tu[i] == 0 by { lemma_rq_one(D, g[i]); }
        lemma_dot_zero(r, tu, n); assert(s == 0); lemma_basic_div(two126(), two127()); assert(w == 0);
        assert(0 * D == 0); assert(Z == x) by(nonlinear_arith) requires D * (Z - x) == 0, D > 0;
    }
}

pub proof fn lemma_pow126() ensures pow2(126) == two126(), pow2(127) == two127(), pow2(192) == 0x1_0000_0000_0000_0000nat * (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat), pow2(191) == 0x8000_0000_0000_0000nat * (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat),
{ lemma_pow64(); lemma_pow2_unfold(127); lemma_pow2_adds(64, 128); lemma_pow2_adds(63, 128); }
pub proof fn lemma_garner_theta(g: int, q: int, sh: nat) requires 0 <= g < q, sh <= 127,
    ensures g * pow2(sh) >= 0, (g * pow2(sh) + q / 2) / q >= 0, (g * pow2(sh) + q / 2) / q <= pow2(sh), ((g * pow2(sh) + q / 2) / q) / 0x1_0000_0000_0000_0000 < 0x1_0000_0000_0000_0000,
      (((g * pow2(sh) + q / 2) / q) / 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000 <= (g * pow2(sh) + q / 2) / q, (g * pow2(sh) + q / 2) / q  - (((g * pow2(sh) + q / 2) / q) / 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000 < 0x1_0000_0000_0000_0000,
{
    lemma_pow64(); lemma_pow2_pos(sh); lemma_pow2_strict(sh); let P = pow2(sh) as int; let x = g * P + q / 2; assert(g * P >= 0) by(nonlinear_arith) requires g >= 0, P >= 0;
    lemma_div_bounds(x, q); let t = x / q;
    assert(g * P <= q * P - P) by(nonlinear_arith) requires g <= q - 1, P > 0;
    assert(t <= P) by(nonlinear_arith) requires t * q <= x, x < q * P + q, q > 0, P > 0;
    assert(P <= two127()); lemma_div_bounds(t, 0x1_0000_0000_0000_0000);
}
/// x * (tl + 2^64 th) split into three words the way the scaler does it
pub proof fn lemma_word_mul(x: u64, tl: u64, th: u64) requires x < 0x4000_0000_0000_0000, th <= 0x8000_0000_0000_0000,
    ensures ({ let b = 0x1_0000_0000_0000_0000int; let lo = x * tl; let hi = x * th + lo / b; 0 <= lo < b * b && 0 <= x * th < b * b && 0 <= lo / b < b && 0 <= hi < b * b && 0 <= hi / b < b && lo % b + b * (hi % b) + b * (b * (hi / b)) == x * sgn(false, tl, th) && (hi / b) % b == hi / b }),
{
    let b = 0x1_0000_0000_0000_0000int; let lo = x * tl; let h = x * th; let hi = h + lo / b;
    assert(0 <= lo < 0x4000_0000_0000_0000 * b) by(nonlinear_arith) requires 0 <= x < 0x4000_0000_0000_0000, 0 <= tl < b, lo == x * tl;
    assert(0 <= h <= 0x4000_0000_0000_0000 * 0x8000_0000_0000_0000) by(nonlinear_arith) requires 0 <= x < 0x4000_0000_0000_0000, 0 <= th <= 0x8000_0000_0000_0000, h == x * th;
    lemma_fundamental_div_mod(lo, b); lemma_div_bounds(lo, b); lemma_fundamental_div_mod(hi, b); lemma_div_bounds(hi, b); lemma_mod_range(lo, b); lemma_mod_range(hi, b);
    assert(x * (tl + b * th) == lo + b * h) by(nonlinear_arith) requires lo == x * tl, h == x * th;
    lemma_small_mod((hi / b) as nat, b as nat);
}
/// size of the sums in scale
pub proof fn lemma_scale_sums(sc: RnsScaler, rests: Seq<u64>)
    requires scaler_wf(sc), rests.len() == sc.from.moduli_u64.len(), forall|j: int| 0 <= j < rests.len() ==> #[trigger] rests[j] < sc.from.moduli_u64@[j],
    ensures
      forall|k: nat| k <= rests.len() ==> 0 <= #[trigger] dot(ints(rests), map_tg(sq(sc), sc.theta_garner_shift as nat, sgs(sc)), k) < pow2(192),
      forall|k: nat| k <= rests.len() ==> -(pow2(94) * two126()) <= #[trigger] dot(ints(rests), map_tup(snum(sc), sden(sc), sgs(sc)), k) <= pow2(94) * two126(),
      0 <= scale_v(sc, ints(rests)) < pow2(100),
{
    let n = rests.len(); let r = ints(rests); let sh = sc.theta_garner_shift as nat; let tg = map_tg(sq(sc), sh, sgs(sc)); let tu = map_tup(snum(sc), sden(sc), sgs(sc));
    let P = pow2(sh) as int; let R = pow2((192 - sh) as nat) as int; lemma_pow2_adds(sh, (192 - sh) as nat); lemma_pow2_pos(sh); lemma_pow2_pos((192 - sh) as nat); lemma_pow64(); lemma_pow126();
    let M = (P * R - 1) / (n as int); lemma_div_bounds(P * R - 1, n as int); assert(P * R >= 1) by(nonlinear_arith) requires P >= 1, R >= 1;
    assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] r[i]) * tg[i] <= M by {
        let x = r[i]; let y = tg[i]; let q = sc.from.moduli_u64@[i] as int; assert(rests[i] < q);
        assert(0 <= y <= P) by { assert(sgn(false, sc.theta_garner_lo@[i], sc.theta_garner_hi@[i]) == y); }
        let xy = x * y;
        assert(0 <= xy <= (q - 1) * P) by(nonlinear_arith) requires 0 <= x <= q - 1, 0 <= y <= P, xy == x * y;
        assert(xy * n <= (q * n) * P - n * P) by(nonlinear_arith) requires xy <= (q - 1) * P, n >= 1;
        assert((q * n) * P <= R * P - P) by(nonlinear_arith) requires q * n <= R - 1, P >= 1;
        assert(n * P >= 1) by(nonlinear_arith) requires n >= 1, P >= 1;
        assert(R * P == P * R) by(nonlinear_arith);
        assert(xy * n < P * R - 1);
        assert(xy <= M) by(nonlinear_arith) requires xy * n < P * R - 1, P * R - 1 < M * n + n, n >= 1;
    }
    assert forall|k: nat| k <= n implies 0 <= #[trigger] dot(r, tg, k) < pow2(192) by {
        lemma_dot_bound(r, tg, k, M);
        assert forall|i: int| 0 <= i < n implies #[trigger] tg[i] >= 0 by { assert(sgn(false, sc.theta_garner_lo@[i], sc.theta_garner_hi@[i]) == tg[i]); }
        lemma_dot_nonneg(r, tg, k);
        assert(M >= 0); assert(k * M <= M * n) by(nonlinear_arith) requires k <= n, M >= 0;
    }
    let m2 = 0x4000_0000_0000_0000 * two126();
    assert forall|i: int| 0 <= i < n implies -m2 <= (#[trigger] r[i]) * tu[i] <= m2 by {
        let x = r[i]; let y = tu[i]; assert(rests[i] < sc.from.moduli_u64@[i]);
        assert(sgn(sc.theta_omega_sign@[i], sc.theta_omega_lo@[i], sc.theta_omega_hi@[i]) == y);
        assert(-m2 <= x * y <= m2) by(nonlinear_arith) requires 0 <= x < 0x4000_0000_0000_0000, -two126() <= y <= two126(), m2 == 0x4000_0000_0000_0000 * two126();
    }
    lemma_pow2_adds(62, 32);
    assert forall|k: nat| k <= n implies -(pow2(94) * two126()) <= #[trigger] dot(r, tu, k) <= pow2(94) * two126() by {
        lemma_dot_bound(r, tu, k, m2);
        assert(k * m2 <= 0x1_0000_0000 * m2) by(nonlinear_arith) requires k <= 0x1_0000_0000, m2 >= 0;
    }
    let T = dot(r, tg, n); let H = pow2((sh - 1) as nat) as int; lemma_pow2_pos((sh - 1) as nat); lemma_pow2_unfold(sh);
    lemma_pow2_adds((sh - 1) as nat, (193 - sh) as nat); lemma_div_bounds(T, H); lemma_pow2_strict(97);
    let K = pow2((193 - sh) as nat) as int; let a = T / H;
    assert(a < K) by(nonlinear_arith) requires a * H <= T, T < H * K, H > 0;
    lemma_pow2_strict(100); 
}
pub proof fn lemma_or_words(a: u64, b: u64) ensures ((a as u128) | ((b as u128) << 64u128)) as int == a + 0x1_0000_0000_0000_0000 * b,
{ assert(((a as u128) | ((b as u128) << 64u128)) == add(a as u128, mul(b as u128, 0x1_0000_0000_0000_0000u128))) by(bit_vector); assert(b * 0x1_0000_0000_0000_0000 <= 0xffff_ffff_ffff_ffff * 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires 0 <= b <= 0xffff_ffff_ffff_ffff; }
/// v * (tl + 2^64 th) with the four partial products
pub proof fn lemma_wide_mul(v: int, tl: u64, th: u64) requires 0 <= v < 0x1_0000_0000_0000_0000_0000_0000_0000, th <= 0x8000_0000_0000_0000,
    ensures ({ let b = 0x1_0000_0000_0000_0000int; let vl = v % b; let vh = v / b; let ll = vl * tl; let lh = vl * th; let hl = vh * tl; let hh = vh * th;
        let mi = ll / b + lh % b + hl % b; let hi = lh / b + hl / b + mi / b + hh;
        &&& 0 <= vl < b && 0 <= vh < b && 0 <= ll < b * b && 0 <= lh < b * b && 0 <= hl < b * b && 0 <= hh < b * b && 0 <= mi < 3 * b && 0 <= hi < b * b
        &&& 0 <= lh / b < b && 0 <= hl / b < b && 0 <= ll / b < b && 0 <= mi / b < 3 && 0 <= hi / b < b && (hi / b) % b == hi / b
        &&& ll % b + b * (mi % b) + b * (b * (hi % b)) + b * (b * (b * (hi / b))) == v * sgn(false, tl, th) }),
{
    let b = 0x1_0000_0000_0000_0000int; let vl = v % b; let vh = v / b; let ll = vl * tl; let lh = vl * th; let hl = vh * tl; let hh = vh * th;
    let mi = ll / b + lh % b + hl % b; let hi = lh / b + hl / b + mi / b + hh;
    lemma_fundamental_div_mod(v, b); lemma_div_bounds(v, b); lemma_mod_range(v, b);
    assert(0 <= ll < b * b) by(nonlinear_arith) requires 0 <= vl < b, 0 <= tl < b, ll == vl * tl;
    assert(0 <= lh < b * b) by(nonlinear_arith) requires 0 <= vl < b, 0 <= th < b, lh == vl * th;
    assert(vh < 0x1_0000_0000_0000);
    assert(0 <= hl < 0x1_0000_0000_0000 * b) by(nonlinear_arith) requires 0 <= vh < 0x1_0000_0000_0000, 0 <= tl < b, hl == vh * tl;
    assert(0 <= hh < 0x1_0000_0000_0000 * b) by(nonlinear_arith) requires 0 <= vh < 0x1_0000_0000_0000, 0 <= th < b, hh == vh * th;
    lemma_div_bounds(ll, b); lemma_div_bounds(lh, b); lemma_div_bounds(hl, b); lemma_mod_range(lh, b); lemma_mod_range(hl, b); lemma_mod_range(ll, b);
    lemma_fundamental_div_mod(ll, b); lemma_fundamental_div_mod(lh, b); lemma_fundamental_div_mod(hl, b);
    lemma_div_bounds(mi, b); lemma_fundamental_div_mod(mi, b); lemma_mod_range(mi, b);
    lemma_div_bounds(hi, b); lemma_fundamental_div_mod(hi, b); lemma_mod_range(hi, b);
    lemma_small_mod((hi / b) as nat, b as nat);
    let t = tl + b * th;
    assert(v * t == v * tl + b * (v * th)) by(nonlinear_arith) requires t == tl + b * th;
    assert(v * tl == b * hl + ll) by(nonlinear_arith) requires v == b * vh + vl, ll == vl * tl, hl == vh * tl;
    assert(v * th == b * hh + lh) by(nonlinear_arith) requires v == b * vh + vl, lh == vl * th, hh == vh * th;
}
/// rounding a signed value held modulo 2^256
pub proof fn lemma_round_signed(u: int, s: int)
    requires u == s % B256(), -(pow2(250) as int) < s < pow2(250),
    ensures (u >= B256() / 2) == (s < 0), s >= 0 ==> u == s, s < 0 ==> B256() - 1 - u == -s - 1,
      s >= 0 ==> 0 <= u / two126() < pow2(124) && (u / two126() + 1) / 2 == (s + two126()) / two127(),
      s < 0 ==> 0 <= (B256() - 1 - u) / two126() < pow2(124) && -(((B256() - 1 - u) / two126() + 1) / 2) == (s + two126()) / two127(),
      -(pow2(124) as int) <= (s + two126()) / two127() <= pow2(124),
{
    lemma_pow64(); lemma_pow126(); lemma_pow2_adds(128, 128); lemma_pow2_unfold(256); lemma_pow2_strict(250); lemma_pow2_strict(255); lemma_pow2_adds(124, 126); lemma_pow2_adds(124, 127);
    assert(pow2(256) == B256()) by { let b = 0x1_0000_0000_0000_0000int; assert((b * b) * (b * b) == b * (b * (b * b))) by(nonlinear_arith); } assert(pow2(255) == B256() / 2);
    if s >= 0 { lemma_small_mod(s as nat, B256() as nat); } else { lemma_cong_intro(s + B256(), s, 1, B256()); lemma_small_mod((s + B256()) as nat, B256() as nat); }
    let x = if s >= 0 { s } else { -s - 1 }; let h = two126(); let K = pow2(124) as int;
    lemma_div_bounds(x, h); let a = x / h; assert(a < K) by(nonlinear_arith) requires a * h <= x, x < K * h, h > 0;
    let c = (a + 1) / 2; let y = s + h; lemma_div_bounds(y, two127()); let d = y / two127();
    assert(2 * c == a + 1 || 2 * c == a);
    if s >= 0 { assert(c == d) by(nonlinear_arith) requires a * h <= s, s < a * h + h, d * (2 * h) <= s + h, s + h < d * (2 * h) + 2 * h, 2 * c == a + 1 || 2 * c == a, h > 0; }
    else { assert(-c == d) by(nonlinear_arith) requires a * h <= -s - 1, -s - 1 < a * h + h, d * (2 * h) <= s + h, s + h < d * (2 * h) + 2 * h, 2 * c == a + 1 || 2 * c == a, h > 0; }
}

pub proof fn lemma_mod_acc(u: int, a: int, d: int, m: int) requires m > 0, u == a % m, ensures (u + d) % m == (a + d) % m, (u - d) % m == (a - d) % m,
{ lemma_fundamental_div_mod(a, m); let k = a / m; assert(a == u + k * m) by(nonlinear_arith) requires a == m * k + u; lemma_cong_intro(a + d, u + d, k, m); lemma_cong_intro(a - d, u - d, k, m); }
pub proof fn lemma_scale_s_bound(sc: RnsScaler, rests: Seq<u64>)
    requires scaler_wf(sc), rests.len() == sc.from.moduli_u64.len(), forall|j: int| 0 <= j < rests.len() ==> #[trigger] rests[j] < sc.from.moduli_u64@[j],
    ensures -(pow2(250) as int) < scale_s(sc, ints(rests)) < pow2(250),
{
    lemma_scale_sums(sc, rests); lemma_pow126(); let v = scale_v(sc, ints(rests)); let t = tdn(snum(sc), sden(sc), sq(sc)); let K = pow2(100) as int; let h = two126();
    assert(-(K * h) <= v * t <= K * h) by(nonlinear_arith) requires 0 <= v < K, -h <= t <= h, h > 0;
    lemma_pow2_adds(94, 126); lemma_pow2_adds(100, 126); lemma_pow2_strict(226); lemma_pow2_unfold(227); lemma_pow2_strict(227); assert(pow2(250) > pow2(227)); let n = rests.len();
    assert(-(pow2(94) * two126()) <= dot(ints(rests), map_tup(snum(sc), sden(sc), sgs(sc)), n) <= pow2(94) * two126());
}

pub proof fn lemma_yi0(y: int, v: int, g: int, q: int) requires q > 0, (2 * q - y) % q == ((v % q) * (g % q)) % q, ensures y % q == (-(v * g)) % q,
{ lemma_mod_range(v, q); lemma_mod_range(g, q); lemma_cong_mul(v % q, v, g % q, g, q); let k = lemma_cong_elim(2 * q - y, v * g, q);
  assert(y == -(v * g) + (2 - k) * q) by(nonlinear_arith) requires 2 * q - y == v * g + k * q; lemma_cong_intro(y, -(v * g), 2 - k, q); }
pub proof fn lemma_yi1(y0: int, y1: int, b: int, w: int, s: bool, q: int) requires q > 0, y0 % q == b % q, s ==> (2 * q - (y1 - y0)) % q == w % q, !s ==> (y1 - y0) % q == w % q,
    ensures y1 % q == (b + (if s { -w } else { w })) % q,
{ let k0 = lemma_cong_elim(y0, b, q);
  if s { let k = lemma_cong_elim(2 * q - (y1 - y0), w, q); assert(y1 == b - w + (k0 + 2 - k) * q) by(nonlinear_arith) requires 2 * q - (y1 - y0) == w + k * q, y0 == b + k0 * q; lemma_cong_intro(y1, b - w, k0 + 2 - k, q); }
  else { let k = lemma_cong_elim(y1 - y0, w, q); assert(y1 == b + w + (k0 + k) * q) by(nonlinear_arith) requires y1 - y0 == w + k * q, y0 == b + k0 * q; lemma_cong_intro(y1, b + w, k0 + k, q); } }
pub proof fn lemma_yi2(y0: int, y1: int, b: int, x: int, o: int, q: int) requires q > 0, y0 % q == b % q, (y1 - y0) % q == (x * (o % q)) % q, ensures y1 % q == (b + x * o) % q,
{ lemma_mod_range(o, q); lemma_cong_mul(x, x, o % q, o, q); lemma_cong_add(y0, b, y1 - y0, x * o, q); }
pub proof fn lemma_scale_one(sc: RnsScaler, r: Seq<int>) requires scaler_wf(sc), snum(sc) == sden(sc), r.len() == sc.from.moduli_u64.len(), ensures scale_w(sc, r) == 0,
{
    let D = sden(sc); let g = sgs(sc); let tu = map_tup(D, D, g); let n = r.len();
    assert forall|i: int| 0 <= i < n implies #[trigger] tu[i] == 0 by { lemma_rq_one(D, g[i]); }
    lemma_rq_one(D, sq(sc)); lemma_dot_zero(r, tu, n); let v = scale_v(sc, r); assert(v * 0 == 0); lemma_basic_div(two126(), two127());
}

pub proof fn lemma_pows() ensures pow2(100) == 0x10_0000_0000_0000_0000_0000_0000, pow2(101) == 0x20_0000_0000_0000_0000_0000_0000, pow2(124) == 0x1000_0000_0000_0000_0000_0000_0000_0000,
{ lemma_pow64(); lemma2_to64(); lemma_pow2_unfold(127); lemma_pow2_unfold(126); lemma_pow2_unfold(125); lemma_pow2_adds(4, 32); lemma_pow2_adds(36, 64); lemma_pow2_unfold(101); }
pub proof fn lemma_pow_le127(sh: nat) requires sh <= 127, ensures pow2(sh) <= pow2(127), { lemma_pow2_strict(127); }
