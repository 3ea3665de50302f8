impl CloneVebKeyRef for u16 {}
//@impl src/key.rs VebKey for u16
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u8 { ((self as int) / 256) as u8 }
    open spec fn lo(self) -> u8 { ((self as int) % 256) as u8 }
    open spec fn mk(h: u8, l: u8) -> Self { (h * 256 + l) as u16 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u16(); }
//@prologue join proof { lemma_bits_u16(); }
//@endimpl
impl CloneVebKeyRef for i16 {}
//@impl src/key.rs VebKey for i16
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u8 { ((self + 32768) / 256) as u8 }
    open spec fn lo(self) -> u8 { ((self + 32768) % 256) as u8 }
    open spec fn mk(h: u8, l: u8) -> Self { (h * 256 + l - 32768) as i16 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u16(); lemma_sign_16(); }
//@prologue join proof { lemma_bits_u16(); lemma_sign_16(); }
//@endimpl
impl CloneVebKeyRef for u32 {}
//@impl src/key.rs VebKey for u32
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u16 { ((self as int) / 65536) as u16 }
    open spec fn lo(self) -> u16 { ((self as int) % 65536) as u16 }
    open spec fn mk(h: u16, l: u16) -> Self { (h * 65536 + l) as u32 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u32(); }
//@prologue join proof { lemma_bits_u32(); }
//@endimpl
impl CloneVebKeyRef for i32 {}
//@impl src/key.rs VebKey for i32
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u16 { ((self + 2147483648) / 65536) as u16 }
    open spec fn lo(self) -> u16 { ((self + 2147483648) % 65536) as u16 }
    open spec fn mk(h: u16, l: u16) -> Self { (h * 65536 + l - 2147483648) as i32 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u32(); lemma_sign_32(); }
//@prologue join proof { lemma_bits_u32(); lemma_sign_32(); }
//@endimpl
impl CloneVebKeyRef for u64 {}
//@impl src/key.rs VebKey for u64
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u32 { ((self as int) / 4294967296) as u32 }
    open spec fn lo(self) -> u32 { ((self as int) % 4294967296) as u32 }
    open spec fn mk(h: u32, l: u32) -> Self { (h * 4294967296 + l) as u64 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u64(); }
//@prologue join proof { lemma_bits_u64(); }
//@endimpl
impl CloneVebKeyRef for i64 {}
//@impl src/key.rs VebKey for i64
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u32 { ((self + 9223372036854775808) / 4294967296) as u32 }
    open spec fn lo(self) -> u32 { ((self + 9223372036854775808) % 4294967296) as u32 }
    open spec fn mk(h: u32, l: u32) -> Self { (h * 4294967296 + l - 9223372036854775808) as i64 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u64(); lemma_sign_64(); }
//@prologue join proof { lemma_bits_u64(); lemma_sign_64(); }
//@endimpl
impl CloneVebKeyRef for u128 {}
//@impl src/key.rs VebKey for u128
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u64 { ((self as int) / 18446744073709551616) as u64 }
    open spec fn lo(self) -> u64 { ((self as int) % 18446744073709551616) as u64 }
    open spec fn mk(h: u64, l: u64) -> Self { (h * 18446744073709551616 + l) as u128 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u128(); }
//@prologue join proof { lemma_bits_u128(); }
//@endimpl
impl CloneVebKeyRef for i128 {}
//@impl src/key.rs VebKey for i128
    open spec fn klaws() -> bool { true }
    open spec fn hi(self) -> u64 { ((self + 170141183460469231731687303715884105728) / 18446744073709551616) as u64 }
    open spec fn lo(self) -> u64 { ((self + 170141183460469231731687303715884105728) % 18446744073709551616) as u64 }
    open spec fn mk(h: u64, l: u64) -> Self { (h * 18446744073709551616 + l - 170141183460469231731687303715884105728) as i128 }
    proof fn lemma_key() { }
//@prologue split_val proof { lemma_bits_u128(); lemma_sign_128(); }
//@prologue join proof { lemma_bits_u128(); lemma_sign_128(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u8
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 0 }
//@prologue index proof { lemma_bits_u8(); lemma_sign_8(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i8
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 128 }
//@prologue index proof { lemma_bits_u8(); lemma_sign_8(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u16
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 0 }
//@prologue index proof { lemma_bits_u16(); lemma_sign_16(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i16
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 32768 }
//@prologue index proof { lemma_bits_u16(); lemma_sign_16(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u32
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 0 }
//@prologue index proof { lemma_bits_u32(); lemma_sign_32(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i32
//@skipconst CARDINALITY
    open spec fn slaws() -> bool { true }
    open spec fn ix(self) -> int { self + 2147483648 }
//@prologue index proof { lemma_bits_u32(); lemma_sign_32(); lemma_sign_64(); }
//@endimpl
