pub assume_specification [i8::abs_diff] (a: i8, b: i8) -> (r: u8) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u8::abs_diff] (a: u8, b: u8) -> (r: u8) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [i8::unsigned_abs] (a: i8) -> (r: u8) ensures r == if a < 0 { -a } else { a as int };
pub assume_specification [i8::cast_unsigned] (a: i8) -> (r: u8) ensures r == a as u8;
pub assume_specification [u8::cast_signed] (a: u8) -> (r: i8) ensures r == a as i8;
pub assume_specification [i16::abs_diff] (a: i16, b: i16) -> (r: u16) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [i16::unsigned_abs] (a: i16) -> (r: u16) ensures r == if a < 0 { -a } else { a as int };
pub assume_specification [i16::cast_unsigned] (a: i16) -> (r: u16) ensures r == a as u16;
pub assume_specification [u16::cast_signed] (a: u16) -> (r: i16) ensures r == a as i16;
pub assume_specification [i32::abs_diff] (a: i32, b: i32) -> (r: u32) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32) ensures r == if a < 0 { -a } else { a as int };
pub assume_specification [i32::cast_unsigned] (a: i32) -> (r: u32) ensures r == a as u32;
pub assume_specification [u32::cast_signed] (a: u32) -> (r: i32) ensures r == a as i32;
pub assume_specification [i64::abs_diff] (a: i64, b: i64) -> (r: u64) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == if a < 0 { -a } else { a as int };
pub assume_specification [i64::cast_unsigned] (a: i64) -> (r: u64) ensures r == a as u64;
pub assume_specification [u64::cast_signed] (a: u64) -> (r: i64) ensures r == a as i64;
pub assume_specification [i128::abs_diff] (a: i128, b: i128) -> (r: u128) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u128::abs_diff] (a: u128, b: u128) -> (r: u128) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [i128::unsigned_abs] (a: i128) -> (r: u128) ensures r == if a < 0 { -a } else { a as int };
pub assume_specification [i128::cast_unsigned] (a: i128) -> (r: u128) ensures r == a as u128;
pub assume_specification [u128::cast_signed] (a: u128) -> (r: i128) ensures r == a as i128;
pub proof fn lemma_bits_u8() ensures
    forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8,
    forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8,
    forall|x: u8| #[trigger] (x & 15u8) == x % 16u8,
    forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger (x << 4u8) ^ y] x < 16u8 && y < 16u8 ==> (x << 4u8) ^ y == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y,
    forall|x: u8| #[trigger] (x ^ 128u8) == if x < 128u8 { add(x, 128u8) } else { sub(x, 128u8) },
    (1u8 << 7u8) == 128u8,
    forall|x: i8| #[trigger] (x ^ i8::MIN) == if x < 0 { sub(x, i8::MIN) } else { add(x, i8::MIN) },
    forall|x: u8, y: u8| #![trigger y ^ (x << 4u8)] x < 16u8 && y < 16u8 ==> y ^ (x << 4u8) == x * 16u8 + y
{
    assert(forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8) by(bit_vector);
    assert(forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 15u8) == x % 16u8) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 4u8) ^ y] x < 16u8 && y < 16u8 ==> (x << 4u8) ^ y == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x ^ 128u8) == if x < 128u8 { add(x, 128u8) } else { sub(x, 128u8) }) by(bit_vector);
    assert((1u8 << 7u8) == 128u8) by(bit_vector);
    assert(forall|x: i8| #[trigger] (x ^ i8::MIN) == if x < 0 { sub(x, i8::MIN) } else { add(x, i8::MIN) }) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y ^ (x << 4u8)] x < 16u8 && y < 16u8 ==> y ^ (x << 4u8) == x * 16u8 + y) by(bit_vector);
}
pub proof fn lemma_sign_8() ensures
    forall|x: i8| #[trigger] (x as u8) == if x >= 0 { x as int } else { x + 256 },
    forall|x: u8| #[trigger] (x as i8) == if x < 128 { x as int } else { x - 256 }
{
    assert(forall|x: i8| x < 0 ==> #[trigger] (x as u8) == sub(255u8, sub(-1i8, x) as u8)) by(bit_vector);
    assert(forall|x: u8| x >= 128u8 ==> #[trigger] (x as i8) == sub(-1i8, sub(255u8, x) as i8)) by(bit_vector);
}
pub proof fn lemma_bits_u16() ensures
    forall|x: u16| #[trigger] (x as u8) as u16 == x % 256u16,
    forall|x: u16| #[trigger] (x >> 8u16) == x / 256u16,
    forall|x: u16| x < 256u16 ==> #[trigger] (x << 8u16) == x * 256u16,
    forall|x: u16| #[trigger] (x & 255u16) == x % 256u16,
    forall|x: u16, y: u16| #![trigger (x << 8u16) | y] x < 256u16 && y < 256u16 ==> (x << 8u16) | y == x * 256u16 + y,
    forall|x: u16, y: u16| #![trigger (x << 8u16) ^ y] x < 256u16 && y < 256u16 ==> (x << 8u16) ^ y == x * 256u16 + y,
    forall|x: u16, y: u16| #![trigger y | (x << 8u16)] x < 256u16 && y < 256u16 ==> y | (x << 8u16) == x * 256u16 + y,
    forall|x: u16| #[trigger] (x ^ 32768u16) == if x < 32768u16 { add(x, 32768u16) } else { sub(x, 32768u16) },
    (1u16 << 15u16) == 32768u16,
    forall|x: i16| #[trigger] (x ^ i16::MIN) == if x < 0 { sub(x, i16::MIN) } else { add(x, i16::MIN) },
    forall|x: u16, y: u16| #![trigger y ^ (x << 8u16)] x < 256u16 && y < 256u16 ==> y ^ (x << 8u16) == x * 256u16 + y
{
    assert(forall|x: u16| #[trigger] (x as u8) as u16 == x % 256u16) by(bit_vector);
    assert(forall|x: u16| #[trigger] (x >> 8u16) == x / 256u16) by(bit_vector);
    assert(forall|x: u16| x < 256u16 ==> #[trigger] (x << 8u16) == x * 256u16) by(bit_vector);
    assert(forall|x: u16| #[trigger] (x & 255u16) == x % 256u16) by(bit_vector);
    assert(forall|x: u16, y: u16| #![trigger (x << 8u16) | y] x < 256u16 && y < 256u16 ==> (x << 8u16) | y == x * 256u16 + y) by(bit_vector);
    assert(forall|x: u16, y: u16| #![trigger (x << 8u16) ^ y] x < 256u16 && y < 256u16 ==> (x << 8u16) ^ y == x * 256u16 + y) by(bit_vector);
    assert(forall|x: u16, y: u16| #![trigger y | (x << 8u16)] x < 256u16 && y < 256u16 ==> y | (x << 8u16) == x * 256u16 + y) by(bit_vector);
    assert(forall|x: u16| #[trigger] (x ^ 32768u16) == if x < 32768u16 { add(x, 32768u16) } else { sub(x, 32768u16) }) by(bit_vector);
    assert((1u16 << 15u16) == 32768u16) by(bit_vector);
    assert(forall|x: i16| #[trigger] (x ^ i16::MIN) == if x < 0 { sub(x, i16::MIN) } else { add(x, i16::MIN) }) by(bit_vector);
    assert(forall|x: u16, y: u16| #![trigger y ^ (x << 8u16)] x < 256u16 && y < 256u16 ==> y ^ (x << 8u16) == x * 256u16 + y) by(bit_vector);
}
pub proof fn lemma_sign_16() ensures
    forall|x: i16| #[trigger] (x as u16) == if x >= 0 { x as int } else { x + 65536 },
    forall|x: u16| #[trigger] (x as i16) == if x < 32768 { x as int } else { x - 65536 }
{
    assert(forall|x: i16| x < 0 ==> #[trigger] (x as u16) == sub(65535u16, sub(-1i16, x) as u16)) by(bit_vector);
    assert(forall|x: u16| x >= 32768u16 ==> #[trigger] (x as i16) == sub(-1i16, sub(65535u16, x) as i16)) by(bit_vector);
}
pub proof fn lemma_bits_u32() ensures
    forall|x: u32| #[trigger] (x as u16) as u32 == x % 65536u32,
    forall|x: u32| #[trigger] (x >> 16u32) == x / 65536u32,
    forall|x: u32| x < 65536u32 ==> #[trigger] (x << 16u32) == x * 65536u32,
    forall|x: u32| #[trigger] (x & 65535u32) == x % 65536u32,
    forall|x: u32, y: u32| #![trigger (x << 16u32) | y] x < 65536u32 && y < 65536u32 ==> (x << 16u32) | y == x * 65536u32 + y,
    forall|x: u32, y: u32| #![trigger (x << 16u32) ^ y] x < 65536u32 && y < 65536u32 ==> (x << 16u32) ^ y == x * 65536u32 + y,
    forall|x: u32, y: u32| #![trigger y | (x << 16u32)] x < 65536u32 && y < 65536u32 ==> y | (x << 16u32) == x * 65536u32 + y,
    forall|x: u32| #[trigger] (x ^ 2147483648u32) == if x < 2147483648u32 { add(x, 2147483648u32) } else { sub(x, 2147483648u32) },
    (1u32 << 31u32) == 2147483648u32,
    forall|x: i32| #[trigger] (x ^ i32::MIN) == if x < 0 { sub(x, i32::MIN) } else { add(x, i32::MIN) },
    forall|x: u32, y: u32| #![trigger y ^ (x << 16u32)] x < 65536u32 && y < 65536u32 ==> y ^ (x << 16u32) == x * 65536u32 + y
{
    assert(forall|x: u32| #[trigger] (x as u16) as u32 == x % 65536u32) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 16u32) == x / 65536u32) by(bit_vector);
    assert(forall|x: u32| x < 65536u32 ==> #[trigger] (x << 16u32) == x * 65536u32) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x & 65535u32) == x % 65536u32) by(bit_vector);
    assert(forall|x: u32, y: u32| #![trigger (x << 16u32) | y] x < 65536u32 && y < 65536u32 ==> (x << 16u32) | y == x * 65536u32 + y) by(bit_vector);
    assert(forall|x: u32, y: u32| #![trigger (x << 16u32) ^ y] x < 65536u32 && y < 65536u32 ==> (x << 16u32) ^ y == x * 65536u32 + y) by(bit_vector);
    assert(forall|x: u32, y: u32| #![trigger y | (x << 16u32)] x < 65536u32 && y < 65536u32 ==> y | (x << 16u32) == x * 65536u32 + y) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x ^ 2147483648u32) == if x < 2147483648u32 { add(x, 2147483648u32) } else { sub(x, 2147483648u32) }) by(bit_vector);
    assert((1u32 << 31u32) == 2147483648u32) by(bit_vector);
    assert(forall|x: i32| #[trigger] (x ^ i32::MIN) == if x < 0 { sub(x, i32::MIN) } else { add(x, i32::MIN) }) by(bit_vector);
    assert(forall|x: u32, y: u32| #![trigger y ^ (x << 16u32)] x < 65536u32 && y < 65536u32 ==> y ^ (x << 16u32) == x * 65536u32 + y) by(bit_vector);
}
pub proof fn lemma_sign_32() ensures
    forall|x: i32| #[trigger] (x as u32) == if x >= 0 { x as int } else { x + 4294967296 },
    forall|x: u32| #[trigger] (x as i32) == if x < 2147483648 { x as int } else { x - 4294967296 }
{
    assert(forall|x: i32| x < 0 ==> #[trigger] (x as u32) == sub(4294967295u32, sub(-1i32, x) as u32)) by(bit_vector);
    assert(forall|x: u32| x >= 2147483648u32 ==> #[trigger] (x as i32) == sub(-1i32, sub(4294967295u32, x) as i32)) by(bit_vector);
}
pub proof fn lemma_bits_u64() ensures
    forall|x: u64| #[trigger] (x as u32) as u64 == x % 4294967296u64,
    forall|x: u64| #[trigger] (x >> 32u64) == x / 4294967296u64,
    forall|x: u64| x < 4294967296u64 ==> #[trigger] (x << 32u64) == x * 4294967296u64,
    forall|x: u64| #[trigger] (x & 4294967295u64) == x % 4294967296u64,
    forall|x: u64, y: u64| #![trigger (x << 32u64) | y] x < 4294967296u64 && y < 4294967296u64 ==> (x << 32u64) | y == x * 4294967296u64 + y,
    forall|x: u64, y: u64| #![trigger (x << 32u64) ^ y] x < 4294967296u64 && y < 4294967296u64 ==> (x << 32u64) ^ y == x * 4294967296u64 + y,
    forall|x: u64, y: u64| #![trigger y | (x << 32u64)] x < 4294967296u64 && y < 4294967296u64 ==> y | (x << 32u64) == x * 4294967296u64 + y,
    forall|x: u64| #[trigger] (x ^ 9223372036854775808u64) == if x < 9223372036854775808u64 { add(x, 9223372036854775808u64) } else { sub(x, 9223372036854775808u64) },
    (1u64 << 63u64) == 9223372036854775808u64,
    forall|x: i64| #[trigger] (x ^ i64::MIN) == if x < 0 { sub(x, i64::MIN) } else { add(x, i64::MIN) },
    forall|x: u64, y: u64| #![trigger y ^ (x << 32u64)] x < 4294967296u64 && y < 4294967296u64 ==> y ^ (x << 32u64) == x * 4294967296u64 + y
{
    assert(forall|x: u64| #[trigger] (x as u32) as u64 == x % 4294967296u64) by(bit_vector);
    assert(forall|x: u64| #[trigger] (x >> 32u64) == x / 4294967296u64) by(bit_vector);
    assert(forall|x: u64| x < 4294967296u64 ==> #[trigger] (x << 32u64) == x * 4294967296u64) by(bit_vector);
    assert(forall|x: u64| #[trigger] (x & 4294967295u64) == x % 4294967296u64) by(bit_vector);
    assert(forall|x: u64, y: u64| #![trigger (x << 32u64) | y] x < 4294967296u64 && y < 4294967296u64 ==> (x << 32u64) | y == x * 4294967296u64 + y) by(bit_vector);
    assert(forall|x: u64, y: u64| #![trigger (x << 32u64) ^ y] x < 4294967296u64 && y < 4294967296u64 ==> (x << 32u64) ^ y == x * 4294967296u64 + y) by(bit_vector);
    assert(forall|x: u64, y: u64| #![trigger y | (x << 32u64)] x < 4294967296u64 && y < 4294967296u64 ==> y | (x << 32u64) == x * 4294967296u64 + y) by(bit_vector);
    assert(forall|x: u64| #[trigger] (x ^ 9223372036854775808u64) == if x < 9223372036854775808u64 { add(x, 9223372036854775808u64) } else { sub(x, 9223372036854775808u64) }) by(bit_vector);
    assert((1u64 << 63u64) == 9223372036854775808u64) by(bit_vector);
    assert(forall|x: i64| #[trigger] (x ^ i64::MIN) == if x < 0 { sub(x, i64::MIN) } else { add(x, i64::MIN) }) by(bit_vector);
    assert(forall|x: u64, y: u64| #![trigger y ^ (x << 32u64)] x < 4294967296u64 && y < 4294967296u64 ==> y ^ (x << 32u64) == x * 4294967296u64 + y) by(bit_vector);
}
pub proof fn lemma_sign_64() ensures
    forall|x: i64| #[trigger] (x as u64) == if x >= 0 { x as int } else { x + 18446744073709551616 },
    forall|x: u64| #[trigger] (x as i64) == if x < 9223372036854775808 { x as int } else { x - 18446744073709551616 }
{
    assert(forall|x: i64| x < 0 ==> #[trigger] (x as u64) == sub(18446744073709551615u64, sub(-1i64, x) as u64)) by(bit_vector);
    assert(forall|x: u64| x >= 9223372036854775808u64 ==> #[trigger] (x as i64) == sub(-1i64, sub(18446744073709551615u64, x) as i64)) by(bit_vector);
}
pub proof fn lemma_bits_u128() ensures
    forall|x: u128| #[trigger] (x as u64) as u128 == x % 18446744073709551616u128,
    forall|x: u128| #[trigger] (x >> 64u128) == x / 18446744073709551616u128,
    forall|x: u128| x < 18446744073709551616u128 ==> #[trigger] (x << 64u128) == x * 18446744073709551616u128,
    forall|x: u128| #[trigger] (x & 18446744073709551615u128) == x % 18446744073709551616u128,
    forall|x: u128, y: u128| #![trigger (x << 64u128) | y] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> (x << 64u128) | y == x * 18446744073709551616u128 + y,
    forall|x: u128, y: u128| #![trigger (x << 64u128) ^ y] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> (x << 64u128) ^ y == x * 18446744073709551616u128 + y,
    forall|x: u128, y: u128| #![trigger y | (x << 64u128)] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> y | (x << 64u128) == x * 18446744073709551616u128 + y,
    forall|x: u128| #[trigger] (x ^ 170141183460469231731687303715884105728u128) == if x < 170141183460469231731687303715884105728u128 { add(x, 170141183460469231731687303715884105728u128) } else { sub(x, 170141183460469231731687303715884105728u128) },
    (1u128 << 127u128) == 170141183460469231731687303715884105728u128,
    forall|x: i128| #[trigger] (x ^ i128::MIN) == if x < 0 { sub(x, i128::MIN) } else { add(x, i128::MIN) },
    forall|x: u128, y: u128| #![trigger y ^ (x << 64u128)] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> y ^ (x << 64u128) == x * 18446744073709551616u128 + y
{
    assert(forall|x: u128| #[trigger] (x as u64) as u128 == x % 18446744073709551616u128) by(bit_vector);
    assert(forall|x: u128| #[trigger] (x >> 64u128) == x / 18446744073709551616u128) by(bit_vector);
    assert(forall|x: u128| x < 18446744073709551616u128 ==> #[trigger] (x << 64u128) == x * 18446744073709551616u128) by(bit_vector);
    assert(forall|x: u128| #[trigger] (x & 18446744073709551615u128) == x % 18446744073709551616u128) by(bit_vector);
    assert(forall|x: u128, y: u128| #![trigger (x << 64u128) | y] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> (x << 64u128) | y == x * 18446744073709551616u128 + y) by(bit_vector);
    assert(forall|x: u128, y: u128| #![trigger (x << 64u128) ^ y] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> (x << 64u128) ^ y == x * 18446744073709551616u128 + y) by(bit_vector);
    assert(forall|x: u128, y: u128| #![trigger y | (x << 64u128)] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> y | (x << 64u128) == x * 18446744073709551616u128 + y) by(bit_vector);
    assert(forall|x: u128| #[trigger] (x ^ 170141183460469231731687303715884105728u128) == if x < 170141183460469231731687303715884105728u128 { add(x, 170141183460469231731687303715884105728u128) } else { sub(x, 170141183460469231731687303715884105728u128) }) by(bit_vector);
    assert((1u128 << 127u128) == 170141183460469231731687303715884105728u128) by(bit_vector);
    assert(forall|x: i128| #[trigger] (x ^ i128::MIN) == if x < 0 { sub(x, i128::MIN) } else { add(x, i128::MIN) }) by(bit_vector);
    assert(forall|x: u128, y: u128| #![trigger y ^ (x << 64u128)] x < 18446744073709551616u128 && y < 18446744073709551616u128 ==> y ^ (x << 64u128) == x * 18446744073709551616u128 + y) by(bit_vector);
}
pub proof fn lemma_sign_128() ensures
    forall|x: i128| #[trigger] (x as u128) == if x >= 0 { x as int } else { x + 340282366920938463463374607431768211456 },
    forall|x: u128| #[trigger] (x as i128) == if x < 170141183460469231731687303715884105728 { x as int } else { x - 340282366920938463463374607431768211456 }
{
    assert(forall|x: i128| x < 0 ==> #[trigger] (x as u128) == sub(340282366920938463463374607431768211455u128, sub(-1i128, x) as u128)) by(bit_vector);
    assert(forall|x: u128| x >= 170141183460469231731687303715884105728u128 ==> #[trigger] (x as i128) == sub(-1i128, sub(340282366920938463463374607431768211455u128, x) as i128)) by(bit_vector);
}
