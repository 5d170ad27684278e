// ---- arbitrary-precision naturals (num-bigint and num-bigint-dig): contracts assumed
#[verifier::external_body]
pub struct BigU { d: Vec<u64> }
impl BigU { pub uninterp spec fn v(&self) -> nat; }

#[verifier::external_body]
pub fn big_from_u32(x: u32) -> (r: BigU) ensures r.v() == x as nat, { unimplemented!() }
#[verifier::external_body]
pub fn big_from_u64(x: u64) -> (r: BigU) ensures r.v() == x as nat, { unimplemented!() }
#[verifier::external_body]
pub fn big_from_usize(x: usize) -> (r: BigU) ensures r.v() == x as nat, { unimplemented!() }
#[verifier::external_body]
pub fn big_from_u128(x: u128) -> (r: BigU) ensures r.v() == x as nat, { unimplemented!() }
#[verifier::external_body]
pub fn big_add(a: &BigU, b: &BigU) -> (r: BigU) ensures r.v() == a.v() + b.v(), { unimplemented!() }
#[verifier::external_body]
pub fn big_mul(a: &BigU, b: &BigU) -> (r: BigU) ensures r.v() == a.v() * b.v(), { unimplemented!() }
#[verifier::external_body]
pub fn big_sub(a: &BigU, b: &BigU) -> (r: BigU) requires b.v() <= a.v(), ensures r.v() == a.v() - b.v(), { unimplemented!() }
#[verifier::external_body]
pub fn big_div(a: &BigU, b: &BigU) -> (r: BigU) requires b.v() > 0, ensures r.v() == a.v() / b.v(), { unimplemented!() }
#[verifier::external_body]
pub fn big_rem(a: &BigU, b: &BigU) -> (r: BigU) requires b.v() > 0, ensures r.v() == a.v() % b.v(), { unimplemented!() }
#[verifier::external_body]
pub fn big_shl(a: &BigU, n: usize) -> (r: BigU) ensures r.v() == a.v() * pow2(n as nat), { unimplemented!() }
#[verifier::external_body]
pub fn big_shr(a: &BigU, n: usize) -> (r: BigU) ensures r.v() == a.v() / pow2(n as nat), { unimplemented!() }
pub uninterp spec fn nat_and(a: nat, b: nat) -> nat;
#[verifier::external_body]
pub fn big_bitand(a: &BigU, b: &BigU) -> (r: BigU) ensures r.v() == nat_and(a.v(), b.v()), b.v() == 1 ==> r.v() == a.v() % 2, { unimplemented!() }
#[verifier::external_body]
pub fn big_eq(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() == b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_ne(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() != b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_gt(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() > b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_ge(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() >= b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_lt(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() < b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_le(a: &BigU, b: &BigU) -> (r: bool) ensures r == (a.v() <= b.v()), { unimplemented!() }
#[verifier::external_body]
pub fn big_zero() -> (r: BigU) ensures r.v() == 0, { unimplemented!() }
#[verifier::external_body]
pub fn big_one() -> (r: BigU) ensures r.v() == 1, { unimplemented!() }
#[verifier::external_body]
pub fn big_to_u64(a: &BigU) -> (r: Option<u64>) ensures r == (if a.v() < pow2(64) { Some(a.v() as u64) } else { None }), { unimplemented!() }
#[verifier::external_body]
pub fn big_to_u128(a: &BigU) -> (r: Option<u128>) ensures r == (if a.v() < pow2(128) { Some(a.v() as u128) } else { None }), { unimplemented!() }
#[verifier::external_body]
pub fn big_to_usize(a: &BigU) -> (r: Option<usize>) ensures r == (if a.v() < pow2(64) { Some(a.v() as usize) } else { None }), { unimplemented!() }
#[verifier::external_body]
pub fn big_bits(a: &BigU) -> (r: usize) ensures a.v() == 0 ==> r == 0, a.v() > 0 ==> r >= 1 && pow2((r - 1) as nat) <= a.v() < pow2(r as nat), { unimplemented!() }
#[verifier::external_body]
pub fn big_mod_inverse(a: &BigU, m: &BigU) -> (r: Option<BigU>) requires m.v() > 1, ensures r.is_some() ==> r.unwrap().v() < m.v() && (r.unwrap().v() * a.v()) % m.v() == 1, (exists|x: nat| (#[trigger] (x * a.v())) % m.v() == 1) ==> r.is_some(), { unimplemented!() }
pub open spec fn is_prime(n: nat) -> bool { n >= 2 && forall|d: nat| 2 <= d < n ==> #[trigger] (n % d) != 0 }
#[verifier::external_body]
pub fn big_probably_prime(a: &BigU) -> (r: bool) ensures r ==> is_prime(a.v()), is_prime(a.v()) ==> r, { unimplemented!() }
#[verifier::external_body]
pub fn u192_zero() -> (r: U192) ensures r.w0 == 0, r.w1 == 0, r.w2 == 0, { unimplemented!() }
pub open spec fn u192v(x: U192) -> nat { (x.w0 + x.w1 * 0x1_0000_0000_0000_0000 + x.w2 * (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat)) as nat }
#[verifier::external_body]
pub fn u192_from_words(a: u64, b: u64, c: u64) -> (r: U192) ensures r.w0 == a, r.w1 == b, r.w2 == c, { unimplemented!() }
#[verifier::external_body]
pub fn u192_wrapping_add(a: &U192, b: &U192) -> (r: U192) ensures u192v(r) == (u192v(*a) + u192v(*b)) % pow2(192), { unimplemented!() }
#[verifier::external_body]
pub fn u192_shr(a: &U192, n: usize) -> (r: U192) requires n < 192, ensures u192v(r) == u192v(*a) / pow2(n as nat), { unimplemented!() }
#[verifier::external_body]
pub fn u192_words(a: &U192) -> (r: [u64; 3]) ensures r@[0] == a.w0, r@[1] == a.w1, r@[2] == a.w2, { unimplemented!() }
