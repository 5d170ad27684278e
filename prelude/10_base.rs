// ---- panics: reaching one is an obligation failure
#[verifier::external_body]
pub fn vpanic() -> ! requires false, { panic!() }
#[verifier::external_body]
pub fn vrefuse() -> ! { panic!() }
#[verifier::external_body]
pub fn vunreachable() -> ! requires false, { panic!() }

// ---- derived Clone / PartialEq are structural (trusted)
#[verifier::external_body]
pub fn clone_val<T>(x: &T) -> (r: T) ensures r == *x, { unimplemented!() }
#[verifier::external_body]
pub fn eq_val<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b), { unimplemented!() }

// ---- Vec and slices
#[verifier::external_body]
pub fn vec_sub<T>(v: &Vec<T>, lo: usize, hi: usize) -> (r: Vec<T>)
    requires lo <= hi <= v.len(), ensures r@ == v@.subrange(lo as int, hi as int), { unimplemented!() }
#[verifier::external_body]
pub fn vec_splice<T>(v: &mut Vec<T>, lo: usize, hi: usize, s: &Vec<T>)
    requires lo <= hi <= old(v).len(), s.len() == hi - lo,
    ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < final(v).len() ==> #[trigger] final(v)@[i] == (if lo <= i < hi { s@[i - lo] } else { old(v)@[i] }), { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy_from<T>(v: &mut Vec<T>, lo: usize, hi: usize, s: &Vec<T>)
    requires lo <= hi <= old(v).len(), s.len() == hi - lo,
    ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < final(v).len() ==> #[trigger] final(v)@[i] == (if lo <= i < hi { s@[i - lo] } else { old(v)@[i] }),
        (lo == 0 && hi == old(v).len()) ==> final(v)@ == s@, { unimplemented!() }
#[verifier::external_body]
pub fn vec_from_elem<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x, { unimplemented!() }
#[verifier::external_body]
pub fn vec_contains<T>(v: &Vec<T>, x: T) -> (r: bool) ensures r == v@.contains(x), { unimplemented!() }
#[verifier::external_body]
pub fn opt_unwrap<T>(x: Option<T>) -> (r: T) requires x.is_some(), ensures r == x.unwrap(), { unimplemented!() }
#[verifier::external_body]
pub fn opt_unwrap_refuse<T>(x: Option<T>) -> (r: T) ensures x.is_some() && r == x.unwrap(), { unimplemented!() }
#[verifier::external_body]
pub fn opt_ref<T>(x: &Option<T>) -> (r: &T) requires x.is_some(), ensures *r == x.unwrap(), { unimplemented!() }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }), { if a <= b { a } else { b } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }), { if a >= b { a } else { b } }
pub fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }), { if a <= b { a } else { b } }
pub fn max_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }), { if a >= b { a } else { b } }
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { 0 } else { (a - b) as usize }), { if a <= b { 0 } else { a - b } }
pub fn opt_min_usize(a: Option<usize>, b: usize) -> (r: Option<usize>)
    ensures r == Some(match a { None => b, Some(x) => if x <= b { x } else { b } }),
{ match a { None => Some(b), Some(x) => if x <= b { Some(x) } else { Some(b) } } }
pub open spec fn chunks_len_s(n: int, k: int) -> int { if n % k == 0 { n / k } else { n / k + 1 } }
pub fn chunks_len(n: usize, k: usize) -> (r: usize) requires k > 0,
    ensures r as int == chunks_len_s(n as int, k as int), (r as int - 1) * (k as int) < n <= r as int * k as int, n == 0 ==> r == 0,
{
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, k as int);
        assert((n as int / k as int + 1) * (k as int) == (k as int) * (n as int / k as int) + k as int) by(nonlinear_arith);
        assert((n as int / k as int - 1) * (k as int) == (k as int) * (n as int / k as int) - k as int) by(nonlinear_arith);
        assert((n as int / k as int) * (k as int) == (k as int) * (n as int / k as int)) by(nonlinear_arith);
        assert(n as int / k as int <= n as int) by(nonlinear_arith) requires k >= 1, n >= 0;
        if k == 1 { assert(n as int % 1 == 0); } else { assert(n > 0 ==> n as int / k as int <= n as int - 1) by(nonlinear_arith) requires k >= 2, n >= 0; }
    }
    if n % k == 0 { n / k } else { n / k + 1 }
}
pub fn chunk_end(lo: usize, k: usize, n: usize) -> (r: usize) requires lo <= n, ensures r == (if lo + k <= n { lo + k } else { n as int }),
{ if n - lo >= k { lo + k } else { n } }

// ---- two-dimensional arrays: a vector of rows
pub struct Arr2 { pub rows: Vec<Vec<u64>> }
impl Arr2 {
    pub open spec fn shape(self, r: int, c: int) -> bool { self.rows.len() == r && forall|i: int| 0 <= i < r ==> (#[trigger] self.rows@[i]).len() == c }
}
pub struct Arr3 { pub dummy: u8 }
pub struct U192 { pub w0: u64, pub w1: u64, pub w2: u64 }
#[verifier::external_body]
pub fn arr3_dummy() -> Arr3 { unimplemented!() }
#[verifier::external_body]
pub fn arr2_zeros(r: usize, c: usize) -> (a: Arr2)
    ensures a.shape(r as int, c as int), forall|i: int, j: int| 0 <= i < r && 0 <= j < c ==> #[trigger] a.rows@[i]@[j] == 0, { unimplemented!() }
#[verifier::external_body]
pub fn arr2_ncols(a: &Arr2) -> (c: usize) ensures a.rows.len() > 0 ==> c == a.rows@[0].len(), { unimplemented!() }
#[verifier::external_body]
pub fn arr2_col(a: &Arr2, j: usize, lo: usize, hi: usize) -> (r: Vec<u64>)
    requires lo <= hi <= a.rows.len(), forall|i: int| 0 <= i < a.rows.len() ==> j < (#[trigger] a.rows@[i]).len(),
    ensures r.len() == hi - lo, forall|i: int| 0 <= i < hi - lo ==> #[trigger] r@[i] == a.rows@[lo + i]@[j as int], { unimplemented!() }
#[verifier::external_body]
pub fn arr2_set_col(a: &mut Arr2, j: usize, lo: usize, hi: usize, v: &Vec<u64>)
    requires lo <= hi <= old(a).rows.len(), v.len() == hi - lo, forall|i: int| 0 <= i < old(a).rows.len() ==> j < (#[trigger] old(a).rows@[i]).len(),
    ensures final(a).rows.len() == old(a).rows.len(),
        forall|i: int| 0 <= i < old(a).rows.len() ==> (#[trigger] final(a).rows@[i]).len() == old(a).rows@[i].len(),
        forall|i: int, k: int| 0 <= i < old(a).rows.len() && 0 <= k < old(a).rows@[i].len() ==> #[trigger] final(a).rows@[i]@[k] == (if k == j && lo <= i < hi { v@[i - lo] } else { old(a).rows@[i]@[k] }), { unimplemented!() }
#[verifier::external_body]
pub fn arr2_copy_rows(a: &mut Arr2, lo: usize, hi: usize, b: &Arr2, blo: usize, bhi: usize)
    requires lo <= hi <= old(a).rows.len(), blo <= bhi <= b.rows.len(), hi - lo == bhi - blo,
        forall|i: int| 0 <= i < hi - lo ==> (#[trigger] old(a).rows@[lo + i]).len() == b.rows@[blo + i].len(),
    ensures final(a).rows.len() == old(a).rows.len(),
        forall|i: int| 0 <= i < old(a).rows.len() ==> #[trigger] final(a).rows@[i] == (if lo <= i < hi { b.rows@[blo + i - lo] } else { old(a).rows@[i] }), { unimplemented!() }
#[verifier::external_body]
pub fn arr2_remove_row(a: &mut Arr2, k: usize)
    requires k < old(a).rows.len(), ensures final(a).rows@ == old(a).rows@.remove(k as int), { unimplemented!() }

// ---- hash map from usize
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
pub struct VMap<K, W> { d: Option<(K, W)> }
impl<K, W> VMap<K, W> {
    pub uninterp spec fn m(&self) -> Map<K, W>;
    #[verifier::external_body]
    pub fn new() -> (r: VMap<K, W>) ensures r.m() == Map::<K, W>::empty(), { unimplemented!() }
}
#[verifier::external_body]
pub fn vmap_insert<K, W>(s: &mut VMap<K, W>, k: K, v: W) ensures final(s).m() == old(s).m().insert(k, v), { unimplemented!() }
#[verifier::external_body]
pub fn vmap_has<K, W>(s: &VMap<K, W>, k: K) -> (r: bool) ensures r == s.m().dom().contains(k), { unimplemented!() }
#[verifier::external_body]
pub fn vmap_get<K, W>(s: &VMap<K, W>, k: K) -> (r: &W) requires s.m().dom().contains(k), ensures *r == s.m()[k], { unimplemented!() }

// ---- random sources: nothing is assumed about the values except their range
pub struct VRng { pub d: u8, pub src: Ghost<Seq<u64>>, pub pos: Ghost<nat> }
impl VRng { /// the k-th word this generator will still deliver
    pub open spec fn word(self, k: int) -> u64 { self.src@[self.pos@ + k] } }
pub struct VSeed { pub d: u8 }
pub struct VHasher { pub d: u8 }
#[verifier::external_body]
pub fn rng_new() -> VRng { unimplemented!() }
#[verifier::external_body]
pub fn rng_next_u64(r: &mut VRng) -> (x: u64) ensures x == old(r).word(0), final(r).src == old(r).src, final(r).pos@ == old(r).pos@ + 1, { unimplemented!() }
#[verifier::external_body]
pub fn rng_range(r: &mut VRng, lo: u64, hi: u64) -> (x: u64) requires lo < hi, ensures lo <= x < hi, { unimplemented!() }
#[verifier::external_body]
pub fn seed_default() -> VSeed { unimplemented!() }
/// an array about whose contents nothing is known (default value, then filled at random)
#[verifier::external_body]
pub fn seed_arr<const N: usize>() -> [u8; N] { unimplemented!() }
#[verifier::external_body]
pub fn hasher_new() -> VHasher { unimplemented!() }

pub open spec fn arcv<T>(a: Arc<T>) -> T { *a }
