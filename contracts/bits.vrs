#[verifier::opaque]
pub open spec fn bit(x: u128, i: int) -> bool { 0 <= i < 128 && x & (1u128 << (i as u128)) != 0 }
#[verifier::opaque]
pub open spec fn anybit(x: u128) -> int { choose|i: int| bit(x, i) }
pub open spec fn bit2(a: [u128; 2], i: int) -> bool { if i < 128 { bit(a[0], i) } else { bit(a[1], i - 128) } }
pub open spec fn pc(x: u128, n: int) -> int decreases n { if n <= 0 { 0 } else { pc(x, n - 1) + if bit(x, n - 1) { 1int } else { 0 } } }
/// number of elements below `n`
pub open spec fn card(a: [u128; 2], n: int) -> int decreases n { if n <= 0 { 0 } else { card(a, n - 1) + if bit2(a, n - 1) { 1int } else { 0 } } }

proof fn bv_and(x: u128, y: u128, i: u128) requires i < 128 ensures ((x & y) & (1u128 << i) != 0) == (x & (1u128 << i) != 0 && y & (1u128 << i) != 0) { assert(((x & y) & (1u128 << i) != 0) == (x & (1u128 << i) != 0 && y & (1u128 << i) != 0)) by (bit_vector) requires i < 128; }
proof fn bv_or(x: u128, y: u128, i: u128) requires i < 128 ensures ((x | y) & (1u128 << i) != 0) == (x & (1u128 << i) != 0 || y & (1u128 << i) != 0) { assert(((x | y) & (1u128 << i) != 0) == (x & (1u128 << i) != 0 || y & (1u128 << i) != 0)) by (bit_vector) requires i < 128; }
proof fn bv_xor(x: u128, y: u128, i: u128) requires i < 128 ensures ((x ^ y) & (1u128 << i) != 0) == ((x & (1u128 << i) != 0) != (y & (1u128 << i) != 0)) { assert(((x ^ y) & (1u128 << i) != 0) == ((x & (1u128 << i) != 0) != (y & (1u128 << i) != 0))) by (bit_vector) requires i < 128; }
proof fn bv_not(x: u128, i: u128) requires i < 128 ensures ((!x) & (1u128 << i) != 0) == !(x & (1u128 << i) != 0) { assert(((!x) & (1u128 << i) != 0) == !(x & (1u128 << i) != 0)) by (bit_vector) requires i < 128; }
proof fn bv_shl(x: u128, s: u128, i: u128) requires i < 128, s < 128 ensures ((x << s) & (1u128 << i) != 0) == (i >= s && (x & (1u128 << ((i - s) as u128)) != 0))
{ if i >= s { let j = (i - s) as u128; assert(((x << s) & (1u128 << i) != 0) == (x & (1u128 << j) != 0)) by (bit_vector) requires i < 128, s < 128, i >= s, j == sub(i, s); }
  else { assert(((x << s) & (1u128 << i) == 0)) by (bit_vector) requires i < 128, s < 128, i < s; } }
proof fn bv_shr(x: u128, s: u128, i: u128) requires i < 128, s < 128 ensures ((x >> s) & (1u128 << i) != 0) == (i + s < 128 && (x & (1u128 << ((i + s) as u128)) != 0))
{ if i + s < 128 { let j = (i + s) as u128; assert(((x >> s) & (1u128 << i) != 0) == (x & (1u128 << j) != 0)) by (bit_vector) requires i < 128, s < 128, j < 128, j == add(i, s); }
  else { assert(((x >> s) & (1u128 << i) == 0)) by (bit_vector) requires i < 128, s < 128, add(i, s) >= 128; } }
proof fn bv_one(i: u128) requires i < 128 ensures (1u128 & (1u128 << i) != 0) == (i == 0) { assert((1u128 & (1u128 << i) != 0) == (i == 0)) by (bit_vector) requires i < 128; }
proof fn bv_max(i: u128) requires i < 128 ensures (u128::MAX & (1u128 << i) != 0) { assert((0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 & (1u128 << i) != 0)) by (bit_vector) requires i < 128; }
proof fn bv_zero(i: u128) requires i < 128 ensures (0u128 & (1u128 << i) == 0) { assert((0u128 & (1u128 << i) == 0)) by (bit_vector); }
/// a value whose bits are all clear is zero
proof fn bv_ext(x: u128) requires forall|i: u128| i < 128 ==> #[trigger] (x & (1u128 << i)) == 0 ensures x == 0 { assert((x >> 0) << 0 == x) by (bit_vector); bv_ext_rec(x, 0); }
proof fn bv_ext_rec(x: u128, n: u128) requires n <= 128, n < 128 ==> (x >> n) << n == x, n == 128 ==> x == 0, forall|i: u128| n <= i < 128 ==> #[trigger] (x & (1u128 << i)) == 0 ensures x == 0 decreases 128 - n
{
    if n < 128 {
        assert(x & (1u128 << n) == 0);
        if n == 127 { assert(x == 0) by (bit_vector) requires n == 127, (x >> n) << n == x, x & (1u128 << n) == 0; }
        else { let m = (n + 1) as u128; assert((x >> m) << m == x) by (bit_vector) requires n < 127, m == add(n, 1), (x >> n) << n == x, x & (1u128 << n) == 0; bv_ext_rec(x, m); }
    }
}
proof fn bv_shr1(x: u128, s: u128) requires s < 128 ensures ((x >> s) & 1u128) == if x & (1u128 << s) != 0 { 1u128 } else { 0u128 } { assert(((x >> s) & 1u128) == if x & (1u128 << s) != 0 { 1u128 } else { 0u128 }) by (bit_vector) requires s < 128; }
proof fn bv_mask(y: u128, s: u128, j: u128) requires s < 128, j < 128, y + 1 == (1u128 << s) ensures (y & (1u128 << j) != 0) == (j < s)
{ assert((y & (1u128 << j) != 0) == (j < s)) by (bit_vector) requires s < 128, j < 128, y == sub(1u128 << s, 1); }
pub proof fn lemma_bits()
    ensures
        forall|x: u128, y: u128, i: int| #![trigger bit(x & y, i)] #![trigger x & y, bit(y, i)] bit(x & y, i) == (bit(x, i) && bit(y, i)),
        forall|x: u128, y: u128, i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)),
        forall|x: u128, y: u128, i: int| #[trigger] bit(x ^ y, i) == (bit(x, i) != bit(y, i)),
        forall|x: u128, i: int| #[trigger] bit(!x, i) == (0 <= i < 128 && !bit(x, i)),
        forall|x: u128, s: u128, i: int| s < 128 ==> #[trigger] bit(x << s, i) == (i < 128 && bit(x, i - s)),
        forall|x: u128, s: u128, i: int| s < 128 ==> #[trigger] bit(x >> s, i) == (0 <= i && bit(x, i + s)),
        forall|i: int| #[trigger] bit(1u128, i) <==> i == 0,
        forall|i: int| !#[trigger] bit(0u128, i),
        forall|i: int| #[trigger] bit(u128::MAX, i) <==> 0 <= i < 128,
        forall|x: u128, i: int| #[trigger] bit(x, i) ==> 0 <= i < 128 && x != 0,
        forall|x: u128| #![trigger anybit(x)] x != 0 ==> bit(x, anybit(x)),
        forall|x: u128, i: int| #![trigger bit(x, i)] x != 0 ==> bit(x, anybit(x)),
        forall|x: u128, s: u128| s < 128 ==> (#[trigger] (x & (1u128 << s)) != 0) == bit(x, s as int),
        forall|x: u128, s: u128| s < 128 ==> #[trigger] ((x >> s) & 1u128) == if bit(x, s as int) { 1u128 } else { 0u128 },
        forall|v: [u128; 2]| #![trigger v[0]] #![trigger v[1]] v[0] == 0 && v[1] == 0 ==> v == [0u128, 0u128],
        forall|x: u128, y: u128| #[trigger] (x | y) == 0 <==> x == 0 && y == 0,
        forall|s: u128| s < 128 ==> #[trigger] (1u128 << s) >= 1,
        forall|a: [u128; 2], i: int| 0 <= i < 128 ==> #[trigger] bit(a[0], i) == bit2(a, i),
        forall|a: [u128; 2], i: int| 0 <= i < 128 ==> #[trigger] bit(a[1], i) == bit2(a, i + 128),
        forall|y: u128, s: u128, j: int| #![trigger 1u128 << s, bit(y, j)] s < 128 && y + 1 == (1u128 << s) ==> (bit(y, j) <==> 0 <= j < s),
        forall|k: u8| #[trigger] (k >> 7u8) == k / 128, forall|k: u8| #[trigger] (k & 127u8) == k % 128, forall|k: u8| #[trigger] (k & 128u8) == if k < 128 { 0u8 } else { 128u8 },
{
    assert(forall|x: u128, y: u128| #[trigger] (x | y) == 0 <==> x == 0 && y == 0) by(bit_vector);
    assert(forall|s: u128| s < 128 ==> #[trigger] (1u128 << s) >= 1) by(bit_vector);
    assert(forall|k: u8| #[trigger] (k >> 7u8) == k / 128) by(bit_vector); assert(forall|k: u8| #[trigger] (k & 127u8) == k % 128) by(bit_vector);
    assert(forall|k: u8| #[trigger] (k & 128u8) == if k < 128 { 0u8 } else { 128u8 }) by(bit_vector);
    assert forall|y: u128, s: u128, j: int| #![trigger 1u128 << s, bit(y, j)] s < 128 && y + 1 == (1u128 << s) implies (bit(y, j) <==> 0 <= j < s) by { reveal(bit); if 0 <= j < 128 { bv_mask(y, s, j as u128); } }
    assert forall|v: [u128; 2]| #![trigger v[0]] #![trigger v[1]] v[0] == 0 && v[1] == 0 implies v == [0u128, 0u128] by { assert(v =~= [0u128, 0u128]); }
    assert forall|x: u128, s: u128| s < 128 implies #[trigger] ((x >> s) & 1u128) == if bit(x, s as int) { 1u128 } else { 0u128 } by { reveal(bit); bv_shr1(x, s); }
    reveal(bit);
    assert forall|x: u128, y: u128, i: int| #![trigger bit(x & y, i)] #![trigger x & y, bit(y, i)] bit(x & y, i) == (bit(x, i) && bit(y, i)) by { if 0 <= i < 128 { bv_and(x, y, i as u128); } }
    assert forall|x: u128, y: u128, i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)) by { if 0 <= i < 128 { bv_or(x, y, i as u128); } }
    assert forall|x: u128, y: u128, i: int| #[trigger] bit(x ^ y, i) == (bit(x, i) != bit(y, i)) by { if 0 <= i < 128 { bv_xor(x, y, i as u128); } }
    assert forall|x: u128, i: int| #[trigger] bit(!x, i) == (0 <= i < 128 && !bit(x, i)) by { if 0 <= i < 128 { bv_not(x, i as u128); } }
    assert forall|x: u128, s: u128, i: int| s < 128 implies #[trigger] bit(x << s, i) == (i < 128 && bit(x, i - s)) by { if 0 <= i < 128 { bv_shl(x, s, i as u128); } }
    assert forall|x: u128, s: u128, i: int| s < 128 implies #[trigger] bit(x >> s, i) == (0 <= i && bit(x, i + s)) by { if 0 <= i < 128 { bv_shr(x, s, i as u128); } }
    assert forall|i: int| #[trigger] bit(1u128, i) <==> i == 0 by { if 0 <= i < 128 { bv_one(i as u128); } }
    assert forall|i: int| !#[trigger] bit(0u128, i) by { if 0 <= i < 128 { bv_zero(i as u128); } }
    assert forall|i: int| #[trigger] bit(u128::MAX, i) <==> 0 <= i < 128 by { if 0 <= i < 128 { bv_max(i as u128); } }
    assert forall|x: u128, i: int| #![trigger bit(x, i)] x != 0 implies bit(x, anybit(x)) by {
        reveal(anybit);
        if !exists|j: int| bit(x, j) {
            assert forall|i: u128| i < 128 implies #[trigger] (x & (1u128 << i)) == 0 by { assert(!bit(x, i as int)); }
            bv_ext(x);
        }
    }
}
pub assume_specification [u128::trailing_zeros] (x: u128) -> (r: u32)
   ensures x == 0 ==> r == 128, x != 0 ==> r < 128 && bit(x, r as int), forall|j: int| 0 <= j < r ==> !bit(x, j);
pub assume_specification [u128::leading_zeros] (x: u128) -> (r: u32)
   ensures x == 0 ==> r == 128, x != 0 ==> r < 128 && bit(x, 127 - r as int), forall|j: int| 127 - r < j < 128 ==> !bit(x, j);
pub assume_specification [u128::trailing_ones] (x: u128) -> (r: u32)
   ensures r <= 128, r < 128 ==> !bit(x, r as int), forall|j: int| 0 <= j < r ==> bit(x, j);
pub assume_specification [u128::leading_ones] (x: u128) -> (r: u32)
   ensures r <= 128, r < 128 ==> !bit(x, 127 - r as int), forall|j: int| 127 - r < j < 128 ==> bit(x, j);
pub assume_specification [u128::count_ones] (x: u128) -> (r: u32)
   ensures r == pc(x, 128), r <= 128;
pub assume_specification [u128::count_zeros] (x: u128) -> (r: u32)
   ensures r == 128 - pc(x, 128), r <= 128;
pub assume_specification [u128::is_power_of_two] (x: u128) -> (r: bool)
   ensures r == (pc(x, 128) == 1);
pub assume_specification [u128::ilog2] (x: u128) -> (r: u32)
   requires x != 0
   ensures r < 128 && bit(x, r as int), forall|j: int| r < j < 128 ==> !bit(x, j);
pub assume_specification [u128::checked_shr] (x: u128, s: u32) -> (r: Option<u128>)
   ensures s < 128 ==> r == Some(x >> (s as u128)), s >= 128 ==> r is None;
pub assume_specification [u128::checked_shl] (x: u128, s: u32) -> (r: Option<u128>)
   ensures s < 128 ==> r == Some(x << (s as u128)), s >= 128 ==> r is None;

proof fn card_split(a: [u128; 2], n: int) requires 0 <= n <= 256 ensures
     n <= 128 ==> card(a, n) == pc(a[0], n), n >= 128 ==> card(a, n) == pc(a[0], 128) + pc(a[1], n - 128) decreases n
{ if n > 0 { card_split(a, n - 1); } }
proof fn pc_mask(x: u128, y: u128, k: int, n: int)
    requires 0 <= k <= 128, 0 <= n <= 128, forall|i: int| 0 <= i < 128 ==> (#[trigger] bit(y, i) <==> bit(x, i) && i < k)
    ensures pc(y, n) == pc(x, if n < k { n } else { k }) decreases n
{ if n > 0 { pc_mask(x, y, k, n - 1); } }
proof fn pc_low(x: u128, n: int) requires 0 <= n <= 128, forall|i: int| 0 <= i < n ==> !#[trigger] bit(x, i) ensures pc(x, n) == 0 decreases n
{ if n > 0 { pc_low(x, n - 1); } }
proof fn pc_shl(x: u128, s: u128, n: int)
    requires s < 128, s <= n <= 128
    ensures pc(x << s, n) == pc(x, n - s) decreases n
{ lemma_bits(); if n > s { pc_shl(x, s, n - 1); assert(bit(x << s, n - 1) == bit(x, n - 1 - s)); } else { assert forall|i: int| 0 <= i < n implies !#[trigger] bit(x << s, i) by { assert(bit(x << s, i) == bit(x, i - s)); reveal(bit); } pc_low(x << s, n); } }
/// counting facts: cardinality depends on the elements only, is monotone, and is 1 exactly for singletons
proof fn card_mask(a: [u128; 2], b: [u128; 2], k: int, n: int)
    requires 0 <= k <= 256, 0 <= n <= 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] bit2(b, i) <==> bit2(a, i) && i < k)
    ensures card(b, n) == card(a, if n < k { n } else { k }) decreases n
{ if n > 0 { card_mask(a, b, k, n - 1); } }
proof fn card_upd(a: [u128; 2], b: [u128; 2], k: int, n: int)
    requires 0 <= k < 256, 0 <= n <= 256, forall|i: int| 0 <= i < 256 && i != k ==> (#[trigger] bit2(b, i) <==> bit2(a, i)), !bit2(a, k), bit2(b, k)
    ensures card(b, n) == card(a, n) + if k < n { 1int } else { 0 } decreases n
{ if n > 0 { card_upd(a, b, k, n - 1); } }
proof fn card_mono(a: [u128; 2], m: int, n: int)
    requires 0 <= m <= n <= 256
    ensures 0 <= card(a, m) <= card(a, n), card(a, n) - card(a, m) <= n - m, forall|i: int| m <= i < n && #[trigger] bit2(a, i) ==> card(a, m) < card(a, n) decreases n
{ if n > m { card_mono(a, m, n - 1); } else if m > 0 { card_mono(a, m - 1, m - 1); } }
proof fn card_zero(a: [u128; 2], m: int, n: int)
    requires 0 <= m <= n <= 256, forall|i: int| m <= i < n ==> !#[trigger] bit2(a, i)
    ensures card(a, m) == card(a, n) decreases n
{ if n > m { card_zero(a, m, n - 1); } }
proof fn card_two(a: [u128; 2], i: int, j: int, n: int)
    requires 0 <= i < j < n <= 256, bit2(a, i), bit2(a, j)
    ensures card(a, n) >= 2
{ card_mono(a, 0, i); card_mono(a, 0, i + 1); card_mono(a, i + 1, j); card_mono(a, j + 1, n); card_mono(a, i, i + 1); card_mono(a, j, j + 1); }
