// ---- semantics of the machine operators (trusted), stated twice: as bit-vector terms and arithmetically
#[verifier::external_body]
pub fn shr_u8(x: u8, n: usize) -> (r: u8) requires n < 8, ensures r as int == x as int / pow2(n as nat) as int, r == x >> (n as u8), { x >> n }
#[verifier::external_body]
pub fn shl_u8(x: u8, n: usize) -> (r: u8) requires n < 8, ensures r as int == (x as int * pow2(n as nat) as int) % pow2(8) as int, r == x << (n as u8), { x << n }
pub fn and_u8(x: u8, y: u8) -> (r: u8) ensures r == x & y, { x & y }
pub fn or_u8(x: u8, y: u8) -> (r: u8) ensures r == x | y, { x | y }
pub fn xor_u8(x: u8, y: u8) -> (r: u8) ensures r == x ^ y, { x ^ y }
pub fn not_u8(x: u8) -> (r: u8) ensures r == !x, { !x }
pub fn bool_as_u8(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }), { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn u8_overflowing_add(x: u8, y: u8) -> (r: (u8, bool)) ensures r.0 as int == (x + y) % pow2(8) as int, r.1 == (x + y >= pow2(8)), r.0 as int == (if x + y >= pow2(8) { x + y - pow2(8) } else { x + y }), { x.overflowing_add(y) }
#[verifier::external_body]
pub fn u8_overflowing_sub(x: u8, y: u8) -> (r: (u8, bool)) ensures r.0 as int == (if x < y { x - y + pow2(8) } else { x - y }), r.1 == (x < y), r.0 == sub(x, y), { x.overflowing_sub(y) }
#[verifier::external_body]
pub fn u8_wrapping_add(x: u8, y: u8) -> (r: u8) ensures r as int == (if x + y >= pow2(8) { x + y - pow2(8) } else { x + y }), r == add(x, y), { x.wrapping_add(y) }
#[verifier::external_body]
pub fn u8_wrapping_sub(x: u8, y: u8) -> (r: u8) ensures r as int == (if x < y { x - y + pow2(8) } else { x - y }), r == sub(x, y), { x.wrapping_sub(y) }
#[verifier::external_body]
pub fn u8_wrapping_mul(x: u8, y: u8) -> (r: u8) ensures r as int == (x * y) % pow2(8) as int, { x.wrapping_mul(y) }
#[verifier::external_body]
pub fn u8_leading_zeros(x: u8) -> (r: u32) ensures has_lz(x as nat, 8, r as int),  { x.leading_zeros() }
#[verifier::external_body]
pub fn u8_is_power_of_two(x: u8) -> (r: bool) ensures r == (exists|k: nat| k < 8 && x == #[trigger] pow2(k)), { x.is_power_of_two() }
#[verifier::external_body]
pub fn u8_next_power_of_two(x: u8) -> (r: u8) requires x <= pow2(7), ensures r >= x, r >= 1, exists|k: nat| k < 8 && r == #[trigger] pow2(k), x >= 2 ==> r < 2 * x, x <= 1 ==> r == 1, { x.next_power_of_two() }
#[verifier::external_body]
pub fn u8_count_ones(x: u8) -> (r: u32) ensures r <= 8, r as nat == popcount(x as nat), { x.count_ones() }
#[verifier::external_body]
pub fn shr_u32(x: u32, n: usize) -> (r: u32) requires n < 32, ensures r as int == x as int / pow2(n as nat) as int, r == x >> (n as u32), { x >> n }
#[verifier::external_body]
pub fn shl_u32(x: u32, n: usize) -> (r: u32) requires n < 32, ensures r as int == (x as int * pow2(n as nat) as int) % pow2(32) as int, r == x << (n as u32), { x << n }
pub fn and_u32(x: u32, y: u32) -> (r: u32) ensures r == x & y, { x & y }
pub fn or_u32(x: u32, y: u32) -> (r: u32) ensures r == x | y, { x | y }
pub fn xor_u32(x: u32, y: u32) -> (r: u32) ensures r == x ^ y, { x ^ y }
pub fn not_u32(x: u32) -> (r: u32) ensures r == !x, { !x }
pub fn bool_as_u32(b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 }), { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn u32_overflowing_add(x: u32, y: u32) -> (r: (u32, bool)) ensures r.0 as int == (x + y) % pow2(32) as int, r.1 == (x + y >= pow2(32)), r.0 as int == (if x + y >= pow2(32) { x + y - pow2(32) } else { x + y }), { x.overflowing_add(y) }
#[verifier::external_body]
pub fn u32_overflowing_sub(x: u32, y: u32) -> (r: (u32, bool)) ensures r.0 as int == (if x < y { x - y + pow2(32) } else { x - y }), r.1 == (x < y), r.0 == sub(x, y), { x.overflowing_sub(y) }
#[verifier::external_body]
pub fn u32_wrapping_add(x: u32, y: u32) -> (r: u32) ensures r as int == (if x + y >= pow2(32) { x + y - pow2(32) } else { x + y }), r == add(x, y), { x.wrapping_add(y) }
#[verifier::external_body]
pub fn u32_wrapping_sub(x: u32, y: u32) -> (r: u32) ensures r as int == (if x < y { x - y + pow2(32) } else { x - y }), r == sub(x, y), { x.wrapping_sub(y) }
#[verifier::external_body]
pub fn u32_wrapping_mul(x: u32, y: u32) -> (r: u32) ensures r as int == (x * y) % pow2(32) as int, { x.wrapping_mul(y) }
#[verifier::external_body]
pub fn u32_leading_zeros(x: u32) -> (r: u32) ensures has_lz(x as nat, 32, r as int),  { x.leading_zeros() }
#[verifier::external_body]
pub fn u32_is_power_of_two(x: u32) -> (r: bool) ensures r == (exists|k: nat| k < 32 && x == #[trigger] pow2(k)), { x.is_power_of_two() }
#[verifier::external_body]
pub fn u32_next_power_of_two(x: u32) -> (r: u32) requires x <= pow2(31), ensures r >= x, r >= 1, exists|k: nat| k < 32 && r == #[trigger] pow2(k), x >= 2 ==> r < 2 * x, x <= 1 ==> r == 1, { x.next_power_of_two() }
#[verifier::external_body]
pub fn u32_count_ones(x: u32) -> (r: u32) ensures r <= 32, r as nat == popcount(x as nat), { x.count_ones() }
#[verifier::external_body]
pub fn shr_u64(x: u64, n: usize) -> (r: u64) requires n < 64, ensures r as int == x as int / pow2(n as nat) as int, r == x >> (n as u64), { x >> n }
#[verifier::external_body]
pub fn shl_u64(x: u64, n: usize) -> (r: u64) requires n < 64, ensures r as int == (x as int * pow2(n as nat) as int) % pow2(64) as int, r == x << (n as u64), { x << n }
pub fn and_u64(x: u64, y: u64) -> (r: u64) ensures r == x & y, { x & y }
pub fn or_u64(x: u64, y: u64) -> (r: u64) ensures r == x | y, { x | y }
pub fn xor_u64(x: u64, y: u64) -> (r: u64) ensures r == x ^ y, { x ^ y }
pub fn not_u64(x: u64) -> (r: u64) ensures r == !x, { !x }
pub fn bool_as_u64(b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 }), { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn u64_overflowing_add(x: u64, y: u64) -> (r: (u64, bool)) ensures r.0 as int == (x + y) % pow2(64) as int, r.1 == (x + y >= pow2(64)), r.0 as int == (if x + y >= pow2(64) { x + y - pow2(64) } else { x + y }), { x.overflowing_add(y) }
#[verifier::external_body]
pub fn u64_overflowing_sub(x: u64, y: u64) -> (r: (u64, bool)) ensures r.0 as int == (if x < y { x - y + pow2(64) } else { x - y }), r.1 == (x < y), r.0 == sub(x, y), { x.overflowing_sub(y) }
#[verifier::external_body]
pub fn u64_wrapping_add(x: u64, y: u64) -> (r: u64) ensures r as int == (if x + y >= pow2(64) { x + y - pow2(64) } else { x + y }), r == add(x, y), { x.wrapping_add(y) }
#[verifier::external_body]
pub fn u64_wrapping_sub(x: u64, y: u64) -> (r: u64) ensures r as int == (if x < y { x - y + pow2(64) } else { x - y }), r == sub(x, y), { x.wrapping_sub(y) }
#[verifier::external_body]
pub fn u64_wrapping_mul(x: u64, y: u64) -> (r: u64) ensures r as int == (x * y) % pow2(64) as int, { x.wrapping_mul(y) }
#[verifier::external_body]
pub fn u64_leading_zeros(x: u64) -> (r: u32) ensures has_lz(x as nat, 64, r as int),  { x.leading_zeros() }
#[verifier::external_body]
pub fn u64_is_power_of_two(x: u64) -> (r: bool) ensures r == (exists|k: nat| k < 64 && x == #[trigger] pow2(k)), { x.is_power_of_two() }
#[verifier::external_body]
pub fn u64_next_power_of_two(x: u64) -> (r: u64) requires x <= pow2(63), ensures r >= x, r >= 1, exists|k: nat| k < 64 && r == #[trigger] pow2(k), x >= 2 ==> r < 2 * x, x <= 1 ==> r == 1, { x.next_power_of_two() }
#[verifier::external_body]
pub fn u64_count_ones(x: u64) -> (r: u32) ensures r <= 64, r as nat == popcount(x as nat), { x.count_ones() }
#[verifier::external_body]
pub fn shr_usize(x: usize, n: usize) -> (r: usize) requires n < 64, ensures r as int == x as int / pow2(n as nat) as int, r == x >> (n as usize), { x >> n }
#[verifier::external_body]
pub fn shl_usize(x: usize, n: usize) -> (r: usize) requires n < 64, ensures r as int == (x as int * pow2(n as nat) as int) % pow2(64) as int, r == x << (n as usize), { x << n }
pub fn and_usize(x: usize, y: usize) -> (r: usize) ensures r == x & y, { x & y }
pub fn or_usize(x: usize, y: usize) -> (r: usize) ensures r == x | y, { x | y }
pub fn xor_usize(x: usize, y: usize) -> (r: usize) ensures r == x ^ y, { x ^ y }
pub fn not_usize(x: usize) -> (r: usize) ensures r == !x, { !x }
pub fn bool_as_usize(b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize }), { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn usize_overflowing_add(x: usize, y: usize) -> (r: (usize, bool)) ensures r.0 as int == (x + y) % pow2(64) as int, r.1 == (x + y >= pow2(64)), r.0 as int == (if x + y >= pow2(64) { x + y - pow2(64) } else { x + y }), { x.overflowing_add(y) }
#[verifier::external_body]
pub fn usize_overflowing_sub(x: usize, y: usize) -> (r: (usize, bool)) ensures r.0 as int == (if x < y { x - y + pow2(64) } else { x - y }), r.1 == (x < y), r.0 == sub(x, y), { x.overflowing_sub(y) }
#[verifier::external_body]
pub fn usize_wrapping_add(x: usize, y: usize) -> (r: usize) ensures r as int == (if x + y >= pow2(64) { x + y - pow2(64) } else { x + y }), r == add(x, y), { x.wrapping_add(y) }
#[verifier::external_body]
pub fn usize_wrapping_sub(x: usize, y: usize) -> (r: usize) ensures r as int == (if x < y { x - y + pow2(64) } else { x - y }), r == sub(x, y), { x.wrapping_sub(y) }
#[verifier::external_body]
pub fn usize_wrapping_mul(x: usize, y: usize) -> (r: usize) ensures r as int == (x * y) % pow2(64) as int, { x.wrapping_mul(y) }
#[verifier::external_body]
pub fn usize_leading_zeros(x: usize) -> (r: u32) ensures has_lz(x as nat, 64, r as int),  { x.leading_zeros() }
#[verifier::external_body]
pub fn usize_is_power_of_two(x: usize) -> (r: bool) ensures r == (exists|k: nat| k < 64 && x == #[trigger] pow2(k)), { x.is_power_of_two() }
#[verifier::external_body]
pub fn usize_next_power_of_two(x: usize) -> (r: usize) requires x <= pow2(63), ensures r >= x, r >= 1, exists|k: nat| k < 64 && r == #[trigger] pow2(k), x >= 2 ==> r < 2 * x, x <= 1 ==> r == 1, { x.next_power_of_two() }
#[verifier::external_body]
pub fn usize_count_ones(x: usize) -> (r: u32) ensures r <= 64, r as nat == popcount(x as nat), { x.count_ones() }
#[verifier::external_body]
pub fn shr_u128(x: u128, n: usize) -> (r: u128) requires n < 128, ensures r as int == x as int / pow2(n as nat) as int, r == x >> (n as u128), { x >> n }
#[verifier::external_body]
pub fn shl_u128(x: u128, n: usize) -> (r: u128) requires n < 128, ensures r as int == (x as int * pow2(n as nat) as int) % pow2(128) as int, r == x << (n as u128), { x << n }
pub fn and_u128(x: u128, y: u128) -> (r: u128) ensures r == x & y, { x & y }
pub fn or_u128(x: u128, y: u128) -> (r: u128) ensures r == x | y, { x | y }
pub fn xor_u128(x: u128, y: u128) -> (r: u128) ensures r == x ^ y, { x ^ y }
pub fn not_u128(x: u128) -> (r: u128) ensures r == !x, { !x }
pub fn bool_as_u128(b: bool) -> (r: u128) ensures r == (if b { 1u128 } else { 0u128 }), { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn u128_overflowing_add(x: u128, y: u128) -> (r: (u128, bool)) ensures r.0 as int == (x + y) % pow2(128) as int, r.1 == (x + y >= pow2(128)), r.0 as int == (if x + y >= pow2(128) { x + y - pow2(128) } else { x + y }), { x.overflowing_add(y) }
#[verifier::external_body]
pub fn u128_overflowing_sub(x: u128, y: u128) -> (r: (u128, bool)) ensures r.0 as int == (if x < y { x - y + pow2(128) } else { x - y }), r.1 == (x < y), r.0 == sub(x, y), { x.overflowing_sub(y) }
#[verifier::external_body]
pub fn u128_wrapping_add(x: u128, y: u128) -> (r: u128) ensures r as int == (if x + y >= pow2(128) { x + y - pow2(128) } else { x + y }), r == add(x, y), { x.wrapping_add(y) }
#[verifier::external_body]
pub fn u128_wrapping_sub(x: u128, y: u128) -> (r: u128) ensures r as int == (if x < y { x - y + pow2(128) } else { x - y }), r == sub(x, y), { x.wrapping_sub(y) }
#[verifier::external_body]
pub fn u128_wrapping_mul(x: u128, y: u128) -> (r: u128) ensures r as int == (x * y) % pow2(128) as int, { x.wrapping_mul(y) }
#[verifier::external_body]
pub fn u128_leading_zeros(x: u128) -> (r: u32) ensures has_lz(x as nat, 128, r as int),  { x.leading_zeros() }
#[verifier::external_body]
pub fn u128_is_power_of_two(x: u128) -> (r: bool) ensures r == (exists|k: nat| k < 128 && x == #[trigger] pow2(k)), { x.is_power_of_two() }
#[verifier::external_body]
pub fn u128_next_power_of_two(x: u128) -> (r: u128) requires x <= pow2(127), ensures r >= x, r >= 1, exists|k: nat| k < 128 && r == #[trigger] pow2(k), x >= 2 ==> r < 2 * x, x <= 1 ==> r == 1, { x.next_power_of_two() }
#[verifier::external_body]
pub fn u128_count_ones(x: u128) -> (r: u32) ensures r <= 128, r as nat == popcount(x as nat), { x.count_ones() }
#[verifier::external_body]
pub fn usize_pow(x: usize, n: u32) -> (r: usize) requires vstd::arithmetic::power::pow(x as int, n as nat) < 0x1_0000_0000_0000_0000, ensures r as int == vstd::arithmetic::power::pow(x as int, n as nat), { x.pow(n) }
/// bit reversal of the low k bits
pub open spec fn brv(k: nat, x: nat) -> nat decreases k { if k == 0 { 0 } else { (x % 2) * pow2((k - 1) as nat) + brv((k - 1) as nat, x / 2) } }
#[verifier::external_body]
pub fn usize_reverse_bits(x: usize) -> (r: usize) ensures r as nat == brv(64, x as nat), { x.reverse_bits() }
pub fn cast_u128_u64(x: u128) -> (r: u64) ensures r as int == x as int % 0x1_0000_0000_0000_0000, r == x as u64,
{ assert(x as u64 == x % 0x1_0000_0000_0000_0000) by(bit_vector); x as u64 }
pub fn cast_u64_u32(x: u64) -> (r: u32) ensures r as int == x as int % 0x1_0000_0000,
{ assert(x as u32 == x % 0x1_0000_0000) by(bit_vector); x as u32 }
pub fn cast_usize_u32(x: usize) -> (r: u32) ensures r as int == x as int % 0x1_0000_0000,
{ assert(x as u32 == x % 0x1_0000_0000) by(bit_vector); x as u32 }
#[verifier::external_body]
pub fn cast_isize_usize(x: isize) -> (r: usize) ensures x >= 0 ==> r == x, { x as usize }
#[verifier::external_body]
pub fn cast_usize_isize(x: usize) -> (r: isize) ensures x < 0x8000_0000_0000_0000 ==> r == x, { x as isize }
#[verifier::external_body]
pub fn cast_i128_u128(x: i128) -> (r: u128) ensures x >= 0 ==> r == x, { x as u128 }
#[verifier::external_body]
pub fn cast_u64_i64(x: u64) -> (r: i64) ensures x < 0x8000_0000_0000_0000 ==> r == x, { x as i64 }
#[verifier::external_body]
pub fn cast_i64_u64(x: i64) -> (r: u64) ensures x >= 0 ==> r == x, { x as u64 }
#[verifier::external_body]
pub fn cast_u32_isize(x: u32) -> (r: isize) ensures r == x, { x as isize }
#[verifier::external_body]
pub fn shl_i128(x: i128, n: usize) -> (r: i128) requires n < 128, ensures 0 <= x * pow2(n as nat) < pow2(127) ==> r as int == x * pow2(n as nat), { x << n }

/// number of one bits
pub open spec fn popcount(x: nat) -> nat decreases x { if x == 0 { 0 } else { x % 2 + popcount(x / 2) } }
/// l leading zeros in a w-bit word
pub open spec fn has_lz(x: nat, w: nat, l: int) -> bool { 0 <= l <= w && (x == 0 <==> l == w) && (x > 0 ==> pow2((w - 1 - l) as nat) <= x < pow2((w - l) as nat)) }
