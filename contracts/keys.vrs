#![allow(unused_imports, dead_code, unused_variables, unused_parens)]
#![feature(allocator_api)]
#![recursion_limit = "256"]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::*;

verus! {
global size_of usize == 8;
//@include order.vrs
//@include borrow.vrs
//@include maybe_borrowed.vrs

// ---- trusted: what core documents of the order and of Clone of bool, unit and arrays
pub axiom fn ax_bool() ensures lawful_ops::<bool>(), forall|a: bool, b: bool| #[trigger] klt(a, b) <==> !a && b;
pub axiom fn ax_unit() ensures lawful_ops::<()>(), forall|a: (), b: ()| !#[trigger] klt(a, b);
pub open spec fn lex<T: Ord>(a: Seq<T>, b: Seq<T>) -> bool { exists|i: int| #[trigger] lex_at(a, b, i) }
pub open spec fn lex_at<T: Ord>(a: Seq<T>, b: Seq<T>, i: int) -> bool { 0 <= i < a.len() && i < b.len() && klt(a[i], b[i]) && forall|j: int| 0 <= j < i ==> #[trigger] a[j] == b[j] }
pub axiom fn ax_array<T: Ord, const N: usize>()
    ensures lawful::<T>() ==> lawful_ops::<[T; N]>() && forall|a: [T; N], b: [T; N]| #[trigger] klt(a, b) <==> lex(a@, b@);
pub axiom fn ax_array_clone<T: Clone, const N: usize>() ensures clone_ok::<T>() ==> clone_ok::<[T; N]>();

//@include arrays.vrs

// ---- the contract of a key type
pub trait VebKey: Ord + Sized {
    type Hi: Ord;
    type Lo: Ord;
    /// what is assumed of the element type
    spec fn klaws() -> bool;
    /// the values which can be built through the public interface
    spec fn kv(self) -> bool;
    spec fn hv(h: Self::Hi) -> bool;
    spec fn lv(l: Self::Lo) -> bool;
    /// h and l are the halves of self
    spec fn halves(self, h: Self::Hi, l: Self::Lo) -> bool;
    /// two keys are equal exactly if their halves are, and ordered as their halves lexicographically
    proof fn lemma_key(a: Self, ah: Self::Hi, al: Self::Lo, b: Self, bh: Self::Hi, bl: Self::Lo)
        requires Self::klaws(), a.kv(), b.kv(), Self::hv(ah), Self::lv(al), Self::hv(bh), Self::lv(bl), a.halves(ah, al), b.halves(bh, bl)
        ensures a == b <==> ah == bh && al == bl,
            klt(a, b) <==> klt(ah, bh) || (ah == bh && klt(al, bl)),
            lawful::<Self>(), lawful::<Self::Hi>(), lawful::<Self::Lo>();

    fn split_val(self) -> (r: (Self::Hi, Self::Lo))
       requires Self::klaws(), self.kv()
       ensures self.halves(r.0, r.1), Self::hv(r.0), Self::lv(r.1);
    fn join<'a>(hi: MaybeBorrowed<'a, Self::Hi>, lo: MaybeBorrowed<'a, Self::Lo>) -> (r: Self)
       requires Self::klaws(), Self::hv(hi.v()), Self::lv(lo.v())
       ensures r.halves(hi.v(), lo.v()), r.kv();
}
pub trait VebKeyRef<Hi: Ord, Lo: Ord> {
    spec fn rlaws() -> bool;
    spec fn rv(&self) -> bool;
    spec fn rh(&self, h: Hi, l: Lo) -> bool;
    /// the function is called once, with the halves
    fn split_ref<F, R>(&self, f: F) -> (r: R)
    where
        F: FnOnce(&Hi, &Lo) -> R
    requires Self::rlaws(), self.rv(), forall|h: Hi, l: Lo| #[trigger] self.rh(h, l) ==> f.requires((&h, &l)),
    ensures exists|h: Hi, l: Lo| #[trigger] self.rh(h, l) && f.ensures((&h, &l), r);
}
pub trait CloneVebKeyRef: VebKey + Clone + Ord {}
pub open spec fn rsplit<K: VebKeyRef<H, L>, H: Ord, L: Ord>(k: K, h: H, l: L) -> bool { k.rh(h, l) }
//@impl src/key.rs VebKeyRef<T::Hi,T::Lo> for T
    open spec fn rlaws() -> bool { T::klaws() && clone_ok::<T>() }
    open spec fn rv(&self) -> bool { self.kv() }
    open spec fn rh(&self, h: T::Hi, l: T::Lo) -> bool { self.halves(h, l) && T::hv(h) && T::lv(l) }
//@prologue split_ref proof { assert forall|h: T::Hi, l: T::Lo| #[trigger] self.halves(h, l) && T::hv(h) && T::lv(l) implies <T as VebKeyRef<T::Hi, T::Lo>>::rh(self, h, l) by { } }
//@endimpl

// ---- indices
pub struct Card<const N: u128>;
pub trait Unsigned { spec fn card() -> int; }
impl<const N: u128> Unsigned for Card<N> { open spec fn card() -> int { N as int } }
pub trait SizedVebKey: Sized {
    type Cardinality: Unsigned;
    spec fn ixv(&self) -> bool;
    spec fn ix(&self) -> int;
    proof fn lemma_ix(a: &Self, b: &Self) requires a.ixv(), b.ixv(), a.ix() == b.ix() ensures a == b;
    fn index(&self) -> (r: usize) requires self.ixv() ensures r == self.ix(), r < Self::Cardinality::card();
}

//@include keybits.vrs
//@struct src/key.rs U4 noclone
impl Copy for U4 {}
//@cloneof src/key.rs U4
    ensures r == *self
//@end
//@struct src/key.rs U2 noclone
impl Copy for U2 {}
//@cloneof src/key.rs U2
    ensures r == *self
//@end

impl PartialEqSpecImpl for U4 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U4) -> bool { self.0 == o.0 } }
impl PartialOrdSpecImpl for U4 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U4) -> Option<Ordering> { PartialOrdSpec::partial_cmp_spec(&self.0, &o.0) } }
impl OrdSpecImpl for U4 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &U4) -> Ordering { OrdSpec::cmp_spec(&self.0, &o.0) } }
//@cmpof src/key.rs U4
impl vstd::std_specs::convert::FromSpecImpl<u8> for U4 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: u8) -> Self { arbitrary() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for U4 { open spec fn obeys_shl_spec() -> bool { false } open spec fn shl_req(self, rhs: usize) -> bool { self.0 < 16 && rhs < 8 } open spec fn shl_spec(self, rhs: usize) -> U4 { arbitrary() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for U4 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, rhs: usize) -> bool { self.0 < 16 && rhs < 8 } open spec fn shr_spec(self, rhs: usize) -> U4 { arbitrary() } }
impl vstd::std_specs::ops::BitOrSpecImpl<U4> for U4 { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, rhs: U4) -> bool { self.0 < 16 && rhs.0 < 16 } open spec fn bitor_spec(self, rhs: U4) -> U4 { arbitrary() } }
//@inherent src/key.rs U4
//@const BITS ensures U4::BITS == 4
//@const MAX ensures U4::MAX == 15 | proof { assert(255u8 >> 4u32 == 15u8) by(bit_vector); lemma_small(); }
//@contract new -> r
    ensures r.0 == v
//@end
//@endimpl
//@impl src/key.rs From<u8> for U4
//@contract from -> r
    ensures r.0 == value % 16, r.0 < 16
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
//@impl src/key.rs BitOr for U4
//@contract bitor -> r
    ensures r.0 == (self.0 | rhs.0) % 16, r.0 < 16
//@end
//@prologue bitor proof { lemma_small(); }
//@endimpl
//@impl src/key.rs Shl<usize> for U4
//@contract shl -> r
    ensures r.0 == (self.0 << rhs) % 16, r.0 < 16
//@end
//@prologue shl proof { lemma_small(); }
//@endimpl
//@impl src/key.rs Shr<usize> for U4
//@contract shr -> r
    ensures r.0 == (self.0 >> rhs) % 16, r.0 < 16
//@end
//@prologue shr proof { lemma_small(); }
//@endimpl
impl PartialEqSpecImpl for U2 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U2) -> bool { self.0 == o.0 } }
impl PartialOrdSpecImpl for U2 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U2) -> Option<Ordering> { PartialOrdSpec::partial_cmp_spec(&self.0, &o.0) } }
impl OrdSpecImpl for U2 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &U2) -> Ordering { OrdSpec::cmp_spec(&self.0, &o.0) } }
//@cmpof src/key.rs U2
impl vstd::std_specs::convert::FromSpecImpl<u8> for U2 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: u8) -> Self { arbitrary() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for U2 { open spec fn obeys_shl_spec() -> bool { false } open spec fn shl_req(self, rhs: usize) -> bool { self.0 < 4 && rhs < 8 } open spec fn shl_spec(self, rhs: usize) -> U2 { arbitrary() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for U2 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, rhs: usize) -> bool { self.0 < 4 && rhs < 8 } open spec fn shr_spec(self, rhs: usize) -> U2 { arbitrary() } }
impl vstd::std_specs::ops::BitOrSpecImpl<U2> for U2 { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, rhs: U2) -> bool { self.0 < 4 && rhs.0 < 4 } open spec fn bitor_spec(self, rhs: U2) -> U2 { arbitrary() } }
//@inherent src/key.rs U2
//@const BITS ensures U2::BITS == 2
//@const MAX ensures U2::MAX == 3 | proof { assert(255u8 >> 6u32 == 3u8) by(bit_vector); lemma_small(); }
//@contract new -> r
    ensures r.0 == v
//@end
//@endimpl
//@impl src/key.rs From<u8> for U2
//@contract from -> r
    ensures r.0 == value % 4, r.0 < 4
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
//@impl src/key.rs BitOr for U2
//@contract bitor -> r
    ensures r.0 == (self.0 | rhs.0) % 4, r.0 < 4
//@end
//@prologue bitor proof { lemma_small(); }
//@endimpl
//@impl src/key.rs Shl<usize> for U2
//@contract shl -> r
    ensures r.0 == (self.0 << rhs) % 4, r.0 < 4
//@end
//@prologue shl proof { lemma_small(); }
//@endimpl
//@impl src/key.rs Shr<usize> for U2
//@contract shr -> r
    ensures r.0 == (self.0 >> rhs) % 4, r.0 < 4
//@end
//@prologue shr proof { lemma_small(); }
//@endimpl
impl vstd::std_specs::convert::FromSpecImpl<U4> for u8 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: U4) -> Self { arbitrary() } }
//@impl src/key.rs From<U4> for u8
//@contract from -> r
    ensures r == value.0
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
impl vstd::std_specs::convert::FromSpecImpl<U4> for U2 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: U4) -> Self { arbitrary() } }
//@impl src/key.rs From<U4> for U2
//@contract from -> r
    ensures r.0 == value.0 % 4, r.0 < 4
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
impl vstd::std_specs::convert::FromSpecImpl<U2> for U4 { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: U2) -> Self { arbitrary() } }
//@impl src/key.rs From<U2> for U4
//@contract from -> r
    ensures r.0 == value.0
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
impl vstd::std_specs::convert::FromSpecImpl<U2> for bool { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: U2) -> Self { arbitrary() } }
//@impl src/key.rs From<U2> for bool
//@contract from -> r
    ensures r == (value.0 % 2 == 1)
//@end
//@prologue from proof { lemma_small(); }
//@endimpl
pub proof fn lemma_shl_usize() ensures 1usize << 0usize == 1usize, 1usize << 2usize == 4usize, 1usize << 4usize == 16usize, 1usize << 8usize == 256usize, 1usize << 16usize == 65536usize, 1usize << 32usize == 4294967296usize, 1usize << 0i32 == 1usize, 1usize << 2i32 == 4usize, 1usize << 4i32 == 16usize, 1usize << 8i32 == 256usize, 1usize << 16i32 == 65536usize, 1usize << 32i32 == 4294967296usize, 1usize << 0u32 == 1usize, 1usize << 2u32 == 4usize, 1usize << 4u32 == 16usize, 1usize << 8u32 == 256usize, 1usize << 16u32 == 65536usize, 1usize << 32u32 == 4294967296usize
{
    assert(1usize << 0usize == 1usize) by(bit_vector);
    assert(1usize << 2usize == 4usize) by(bit_vector);
    assert(1usize << 4usize == 16usize) by(bit_vector);
    assert(1usize << 8usize == 256usize) by(bit_vector);
    assert(1usize << 16usize == 65536usize) by(bit_vector);
    assert(1usize << 32usize == 4294967296usize) by(bit_vector);
    assert(1usize << 0i32 == 1usize) by(bit_vector);
    assert(1usize << 2i32 == 4usize) by(bit_vector);
    assert(1usize << 4i32 == 16usize) by(bit_vector);
    assert(1usize << 8i32 == 256usize) by(bit_vector);
    assert(1usize << 16i32 == 65536usize) by(bit_vector);
    assert(1usize << 32i32 == 4294967296usize) by(bit_vector);
    assert(1usize << 0u32 == 1usize) by(bit_vector);
    assert(1usize << 2u32 == 4usize) by(bit_vector);
    assert(1usize << 4u32 == 16usize) by(bit_vector);
    assert(1usize << 8u32 == 256usize) by(bit_vector);
    assert(1usize << 16u32 == 65536usize) by(bit_vector);
    assert(1usize << 32u32 == 4294967296usize) by(bit_vector);
}
pub proof fn lemma_small() ensures
    forall|x: u8| #[trigger] (x & 15u8) == x % 16u8, forall|x: u8| #[trigger] (15u8 & x) == x % 16u8,
    forall|x: u8| #[trigger] (x & 3u8) == x % 4u8, forall|x: u8| #[trigger] (3u8 & x) == x % 4u8,
    forall|x: u8| #[trigger] (x & 1u8) == x % 2u8, forall|x: u8| #[trigger] (1u8 & x) == x % 2u8,
    forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8, forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8, forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8,
    forall|x: u8, y: u8| #![trigger x | y] (x < 16u8 && y < 16u8 ==> (x | y) < 16u8) && (x < 4u8 && y < 4u8 ==> (x | y) < 4u8), forall|x: u8| #![trigger x >> 1u8] x >> 1u8 <= x,
    forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8, forall|x: u8| x < 64u8 ==> #[trigger] (x << 2u8) == x * 4u8, forall|x: u8| x < 128u8 ==> #[trigger] (x << 1u8) == x * 2u8,
    forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger (x << 2u8) | y] x < 64u8 && y < 4u8 ==> (x << 2u8) | y == x * 4u8 + y,
    forall|x: u8, y: u8| #![trigger (x << 1u8) | y] x < 128u8 && y < 2u8 ==> (x << 1u8) | y == x * 2u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 2u8)] x < 64u8 && y < 4u8 ==> y | (x << 2u8) == x * 4u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 1u8)] x < 128u8 && y < 2u8 ==> y | (x << 1u8) == x * 2u8 + y,
{
    assert(forall|x: u8, y: u8| #![trigger x | y] (x < 16u8 && y < 16u8 ==> (x | y) < 16u8) && (x < 4u8 && y < 4u8 ==> (x | y) < 4u8)) by(bit_vector); assert(forall|x: u8| #![trigger x >> 1u8] x >> 1u8 <= x) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 15u8) == x % 16u8) by(bit_vector); assert(forall|x: u8| #[trigger] (15u8 & x) == x % 16u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 3u8) == x % 4u8) by(bit_vector); assert(forall|x: u8| #[trigger] (3u8 & x) == x % 4u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 1u8) == x % 2u8) by(bit_vector); assert(forall|x: u8| #[trigger] (1u8 & x) == x % 2u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8) by(bit_vector); assert(forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8) by(bit_vector); assert(forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8) by(bit_vector);
    assert(forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8) by(bit_vector); assert(forall|x: u8| x < 64u8 ==> #[trigger] (x << 2u8) == x * 4u8) by(bit_vector); assert(forall|x: u8| x < 128u8 ==> #[trigger] (x << 1u8) == x * 2u8) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 2u8) | y] x < 64u8 && y < 4u8 ==> (x << 2u8) | y == x * 4u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 1u8) | y] x < 128u8 && y < 2u8 ==> (x << 1u8) | y == x * 2u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 2u8)] x < 64u8 && y < 4u8 ==> y | (x << 2u8) == x * 4u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 1u8)] x < 128u8 && y < 2u8 ==> y | (x << 1u8) == x * 2u8 + y) by(bit_vector);
}
//@impl src/key.rs VebKey for ()
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: ()) -> bool { true }
    open spec fn lv(l: ()) -> bool { true }
    open spec fn halves(self, h: (), l: ()) -> bool { true }
    proof fn lemma_key(a: Self, ah: (), al: (), b: Self, bh: (), bl: ()) { ax_unit(); }
//@prologue split_val proof {   }
//@prologue join proof {   }
//@endimpl
//@impl src/key.rs VebKey for U2
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { self.0 < 4 }
    open spec fn hv(h: bool) -> bool { true }
    open spec fn lv(l: bool) -> bool { true }
    open spec fn halves(self, h: bool, l: bool) -> bool { self.0 == (if h { 2int } else { 0int }) + (if l { 1int } else { 0int }) }
    proof fn lemma_key(a: Self, ah: bool, al: bool, b: Self, bh: bool, bl: bool) { ax_bool(); }
//@prologue split_val proof { lemma_small();  }
//@prologue join proof { lemma_small();  }
//@endimpl
//@impl src/key.rs VebKey for U4
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { self.0 < 16 }
    open spec fn hv(h: U2) -> bool { h.0 < 4 }
    open spec fn lv(l: U2) -> bool { l.0 < 4 }
    open spec fn halves(self, h: U2, l: U2) -> bool { self.0 == h.0 * 4 + l.0 }
    proof fn lemma_key(a: Self, ah: U2, al: U2, b: Self, bh: U2, bl: U2) {  }
//@prologue split_val proof { lemma_small();  }
//@prologue join proof { lemma_small();  }
//@endimpl
//@impl src/key.rs VebKey for u8
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: U4) -> bool { h.0 < 16 }
    open spec fn lv(l: U4) -> bool { l.0 < 16 }
    open spec fn halves(self, h: U4, l: U4) -> bool { self == h.0 * 16 + l.0 }
    proof fn lemma_key(a: Self, ah: U4, al: U4, b: Self, bh: U4, bl: U4) {  }
//@prologue split_val proof { lemma_small(); lemma_bits_u8();  }
//@prologue join proof { lemma_small(); lemma_bits_u8();  }
//@endimpl
//@impl src/key.rs VebKey for i8
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: U4) -> bool { h.0 < 16 }
    open spec fn lv(l: U4) -> bool { l.0 < 16 }
    open spec fn halves(self, h: U4, l: U4) -> bool { self + 128 == h.0 * 16 + l.0 }
    proof fn lemma_key(a: Self, ah: U4, al: U4, b: Self, bh: U4, bl: U4) {  }
//@prologue split_val proof { lemma_small(); lemma_bits_u8(); lemma_sign_8();  }
//@prologue join proof { lemma_small(); lemma_bits_u8(); lemma_sign_8();  }
//@endimpl
//@impl src/key.rs VebKey for u16
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u8) -> bool { true }
    open spec fn lv(l: u8) -> bool { true }
    open spec fn halves(self, h: u8, l: u8) -> bool { self == h * 256 + l }
    proof fn lemma_key(a: Self, ah: u8, al: u8, b: Self, bh: u8, bl: u8) {  }
//@prologue split_val proof { lemma_bits_u16();  }
//@prologue join proof { lemma_bits_u16();  }
//@endimpl
//@impl src/key.rs VebKey for i16
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u8) -> bool { true }
    open spec fn lv(l: u8) -> bool { true }
    open spec fn halves(self, h: u8, l: u8) -> bool { self + 32768 == h * 256 + l }
    proof fn lemma_key(a: Self, ah: u8, al: u8, b: Self, bh: u8, bl: u8) {  }
//@prologue split_val proof { lemma_bits_u16(); lemma_sign_16();  }
//@prologue join proof { lemma_bits_u16(); lemma_sign_16();  }
//@endimpl
//@impl src/key.rs VebKey for u32
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u16) -> bool { true }
    open spec fn lv(l: u16) -> bool { true }
    open spec fn halves(self, h: u16, l: u16) -> bool { self == h * 65536 + l }
    proof fn lemma_key(a: Self, ah: u16, al: u16, b: Self, bh: u16, bl: u16) {  }
//@prologue split_val proof { lemma_bits_u32();  }
//@prologue join proof { lemma_bits_u32();  }
//@endimpl
//@impl src/key.rs VebKey for i32
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u16) -> bool { true }
    open spec fn lv(l: u16) -> bool { true }
    open spec fn halves(self, h: u16, l: u16) -> bool { self + 2147483648 == h * 65536 + l }
    proof fn lemma_key(a: Self, ah: u16, al: u16, b: Self, bh: u16, bl: u16) {  }
//@prologue split_val proof { lemma_bits_u32(); lemma_sign_32();  }
//@prologue join proof { lemma_bits_u32(); lemma_sign_32();  }
//@endimpl
//@impl src/key.rs VebKey for u64
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u32) -> bool { true }
    open spec fn lv(l: u32) -> bool { true }
    open spec fn halves(self, h: u32, l: u32) -> bool { self == h * 4294967296 + l }
    proof fn lemma_key(a: Self, ah: u32, al: u32, b: Self, bh: u32, bl: u32) {  }
//@prologue split_val proof { lemma_bits_u64();  }
//@prologue join proof { lemma_bits_u64();  }
//@endimpl
//@impl src/key.rs VebKey for i64
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u32) -> bool { true }
    open spec fn lv(l: u32) -> bool { true }
    open spec fn halves(self, h: u32, l: u32) -> bool { self + 9223372036854775808 == h * 4294967296 + l }
    proof fn lemma_key(a: Self, ah: u32, al: u32, b: Self, bh: u32, bl: u32) {  }
//@prologue split_val proof { lemma_bits_u64(); lemma_sign_64();  }
//@prologue join proof { lemma_bits_u64(); lemma_sign_64();  }
//@endimpl
//@impl src/key.rs VebKey for u128
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u64) -> bool { true }
    open spec fn lv(l: u64) -> bool { true }
    open spec fn halves(self, h: u64, l: u64) -> bool { self == h * 18446744073709551616 + l }
    proof fn lemma_key(a: Self, ah: u64, al: u64, b: Self, bh: u64, bl: u64) {  }
//@prologue split_val proof { lemma_bits_u128();  }
//@prologue join proof { lemma_bits_u128();  }
//@endimpl
//@impl src/key.rs VebKey for i128
    open spec fn klaws() -> bool { true }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: u64) -> bool { true }
    open spec fn lv(l: u64) -> bool { true }
    open spec fn halves(self, h: u64, l: u64) -> bool { self + 170141183460469231731687303715884105728 == h * 18446744073709551616 + l }
    proof fn lemma_key(a: Self, ah: u64, al: u64, b: Self, bh: u64, bl: u64) {  }
//@prologue split_val proof { lemma_bits_u128(); lemma_sign_128();  }
//@prologue join proof { lemma_bits_u128(); lemma_sign_128();  }
//@endimpl
//@impl src/key.rs SizedVebKey for ()
//@const CARDINALITY ensures r == 1 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { 0 }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof {  }
//@endimpl
//@impl src/key.rs SizedVebKey for U2
//@const CARDINALITY ensures r == 4 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { self.0 < 4 }
    open spec fn ix(&self) -> int { self.0 as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof {  }
//@endimpl
//@impl src/key.rs SizedVebKey for U4
//@const CARDINALITY ensures r == 16 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { self.0 < 16 }
    open spec fn ix(&self) -> int { self.0 as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof {  }
//@endimpl
//@impl src/key.rs SizedVebKey for u8
//@const CARDINALITY ensures r == 256 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u8(); lemma_sign_8(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i8
//@const CARDINALITY ensures r == 256 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self + 128 }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u8(); lemma_sign_8(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u16
//@const CARDINALITY ensures r == 65536 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u16(); lemma_sign_16(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i16
//@const CARDINALITY ensures r == 65536 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self + 32768 }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u16(); lemma_sign_16(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u32
//@const CARDINALITY ensures r == 4294967296 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u32(); lemma_sign_32(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i32
//@const CARDINALITY ensures r == 4294967296 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self + 2147483648 }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u32(); lemma_sign_32(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for u64
//@const CARDINALITY ensures r == 18446744073709551615 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self as int }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u64(); lemma_sign_64(); }
//@endimpl
//@impl src/key.rs SizedVebKey for i64
//@const CARDINALITY ensures r == 18446744073709551615 | proof { lemma_shl_usize(); }
    open spec fn ixv(&self) -> bool { true }
    open spec fn ix(&self) -> int { *self + 9223372036854775808 }
    proof fn lemma_ix(a: &Self, b: &Self) { }
//@prologue index proof { lemma_bits_u64(); lemma_sign_64(); lemma_sign_64(); }
//@endimpl
pub proof fn lemma_lex<T: Ord>(a: Seq<T>, ah: Seq<T>, al: Seq<T>, b: Seq<T>, bh: Seq<T>, bl: Seq<T>)
    requires a == ah + al, b == bh + bl, ah.len() == bh.len(), al.len() == bl.len(), lawful::<T>()
    ensures a == b <==> ah == bh && al == bl, lex(a, b) <==> lex(ah, bh) || (ah == bh && lex(al, bl))
{
    let n = ah.len() as int;
    assert(a.subrange(0, n) =~= ah); assert(b.subrange(0, n) =~= bh);
    assert(a.subrange(n, a.len() as int) =~= al); assert(b.subrange(n, b.len() as int) =~= bl);
    if lex(a, b) {
        let i = choose|i: int| lex_at(a, b, i);
        if i < n { assert forall|j: int| 0 <= j < i implies #[trigger] ah[j] == bh[j] by { assert(a[j] == b[j]); } assert(lex_at(ah, bh, i)); }
        else {
            assert(ah =~= bh) by { assert forall|j: int| 0 <= j < n implies ah[j] == bh[j] by { assert(a[j] == b[j]); } }
            assert forall|j: int| 0 <= j < i - n implies #[trigger] al[j] == bl[j] by { assert(a[j + n] == b[j + n]); }
            assert(lex_at(al, bl, i - n));
        }
    }
    if lex(ah, bh) { let i = choose|i: int| lex_at(ah, bh, i); assert forall|j: int| 0 <= j < i implies #[trigger] a[j] == b[j] by { assert(ah[j] == bh[j]); } assert(lex_at(a, b, i)); }
    if ah == bh && lex(al, bl) {
        let i = choose|i: int| lex_at(al, bl, i);
        assert forall|j: int| 0 <= j < i + n implies #[trigger] a[j] == b[j] by { if j < n { assert(ah[j] == bh[j]); } else { assert(al[j - n] == bl[j - n]); } }
        assert(lex_at(a, b, i + n));
    }
}
pub proof fn lemma_lex1<T: Ord>(x: T, y: T) requires lawful::<T>() ensures lex(seq![x], seq![y]) <==> klt(x, y), seq![x] == seq![y] <==> x == y
{ if klt(x, y) { assert(lex_at(seq![x], seq![y], 0)); } assert(seq![x][0] == x); assert(seq![y][0] == y); }
pub proof fn lemma_array_law<T: Ord, const N: usize>() ensures lawful::<T>() ==> lawful::<[T; N]>() && (forall|a: [T; N], b: [T; N]| #[trigger] klt(a, b) <==> lex(a@, b@)) && (forall|a: [T; N], b: [T; N]| #![trigger a@, b@] a@ == b@ <==> a == b)
{
    ax_array::<T, N>();
    if lawful::<T>() {
        assert forall|a: [T; N], b: [T; N], c: [T; N]| #[trigger] klt(a, b) && #[trigger] klt(b, c) implies klt(a, c) by {
            let i = choose|i: int| lex_at(a@, b@, i); let j = choose|j: int| lex_at(b@, c@, j);
            let k = if i <= j { i } else { j };
            assert forall|x: int| 0 <= x < k implies #[trigger] a@[x] == c@[x] by { assert(a@[x] == b@[x]); assert(b@[x] == c@[x]); }
            assert(b@[k] == b[k]);
            if i < j { assert(b@[i] == c@[i]); } else if j < i { assert(a@[j] == b@[j]); } else { assert(klt(a@[i], b@[i]) && klt(b@[i], c@[i])); }
            assert(lex_at(a@, c@, k));
        }
        assert forall|a: [T; N], b: [T; N]| #![trigger a@, b@] a@ == b@ implies a == b by { assert(a =~= b); }
    }
}
//@impl src/key.rs VebKey for [T;2]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: T) -> bool { true }
    open spec fn lv(l: T) -> bool { true }
    open spec fn halves(self, h: T, l: T) -> bool { self@ =~= seq![h] + seq![l] }
    proof fn lemma_key(a: Self, ah: T, al: T, b: Self, bh: T, bl: T) { lemma_array_law::<T, 2>(); lemma_lex(a@, seq![ah], seq![al], b@, seq![bh], seq![bl]); lemma_lex1(ah, bh); lemma_lex1(al, bl); }
//@prologue split_val proof { lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>();  }
//@prologue join proof { lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<T,T> for [T;2]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: T, l: T) -> bool { self@ =~= seq![h] + seq![l] }
//@prologue split_ref proof { assert(<[T; 2] as VebKeyRef<T, T>>::rh(self, self@[0], self@[1])); }
//@endimpl
//@impl src/key.rs VebKey for [T;3]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: T) -> bool { true }
    open spec fn lv(l: [T;2]) -> bool { true }
    open spec fn halves(self, h: T, l: [T;2]) -> bool { self@ =~= seq![h] + l@ }
    proof fn lemma_key(a: Self, ah: T, al: [T;2], b: Self, bh: T, bl: [T;2]) { lemma_array_law::<T, 3>(); lemma_array_law::<T, 2>(); lemma_lex(a@, seq![ah], al@, b@, seq![bh], bl@); lemma_lex1(ah, bh); }
//@prologue split_val proof { lemma_array_law::<T, 3>(); lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 3>();  }
//@prologue join proof { lemma_array_law::<T, 3>(); lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 3>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<T,[T;2]> for [T;3]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: T, l: [T;2]) -> bool { self@ =~= seq![h] + l@ }
//@prologue split_ref proof { assert forall|l: [T;2]| #![trigger l@] self@ =~= seq![self@[0]] + l@ implies <[T; 3] as VebKeyRef<T, [T;2]>>::rh(self, self@[0], l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;4]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;2]) -> bool { true }
    open spec fn lv(l: [T;2]) -> bool { true }
    open spec fn halves(self, h: [T;2], l: [T;2]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;2], al: [T;2], b: Self, bh: [T;2], bl: [T;2]) { lemma_array_law::<T, 4>(); lemma_array_law::<T, 2>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 4>(); lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 4>();  }
//@prologue join proof { lemma_array_law::<T, 4>(); lemma_array_law::<T, 2>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 4>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;2],[T;2]> for [T;4]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;2], l: [T;2]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;2], l: [T;2]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 4] as VebKeyRef<[T;2], [T;2]>>::rh(self, h, l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;5]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;2]) -> bool { true }
    open spec fn lv(l: [T;3]) -> bool { true }
    open spec fn halves(self, h: [T;2], l: [T;3]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;2], al: [T;3], b: Self, bh: [T;2], bl: [T;3]) { lemma_array_law::<T, 5>(); lemma_array_law::<T, 2>(); lemma_array_law::<T, 3>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 5>(); lemma_array_law::<T, 2>(); lemma_array_law::<T, 3>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 5>();  }
//@prologue join proof { lemma_array_law::<T, 5>(); lemma_array_law::<T, 2>(); lemma_array_law::<T, 3>(); ax_array_clone::<T, 2>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 5>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;2],[T;3]> for [T;5]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;2], l: [T;3]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;2], l: [T;3]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 5] as VebKeyRef<[T;2], [T;3]>>::rh(self, h, l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;6]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;3]) -> bool { true }
    open spec fn lv(l: [T;3]) -> bool { true }
    open spec fn halves(self, h: [T;3], l: [T;3]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;3], al: [T;3], b: Self, bh: [T;3], bl: [T;3]) { lemma_array_law::<T, 6>(); lemma_array_law::<T, 3>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 6>(); lemma_array_law::<T, 3>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 6>();  }
//@prologue join proof { lemma_array_law::<T, 6>(); lemma_array_law::<T, 3>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 6>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;3],[T;3]> for [T;6]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;3], l: [T;3]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;3], l: [T;3]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 6] as VebKeyRef<[T;3], [T;3]>>::rh(self, h, l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;7]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;3]) -> bool { true }
    open spec fn lv(l: [T;4]) -> bool { true }
    open spec fn halves(self, h: [T;3], l: [T;4]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;3], al: [T;4], b: Self, bh: [T;3], bl: [T;4]) { lemma_array_law::<T, 7>(); lemma_array_law::<T, 3>(); lemma_array_law::<T, 4>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 7>(); lemma_array_law::<T, 3>(); lemma_array_law::<T, 4>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 4>(); ax_array_clone::<T, 7>();  }
//@prologue join proof { lemma_array_law::<T, 7>(); lemma_array_law::<T, 3>(); lemma_array_law::<T, 4>(); ax_array_clone::<T, 3>(); ax_array_clone::<T, 4>(); ax_array_clone::<T, 7>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;3],[T;4]> for [T;7]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;3], l: [T;4]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;3], l: [T;4]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 7] as VebKeyRef<[T;3], [T;4]>>::rh(self, h, l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;8]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;4]) -> bool { true }
    open spec fn lv(l: [T;4]) -> bool { true }
    open spec fn halves(self, h: [T;4], l: [T;4]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;4], al: [T;4], b: Self, bh: [T;4], bl: [T;4]) { lemma_array_law::<T, 8>(); lemma_array_law::<T, 4>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 8>(); lemma_array_law::<T, 4>(); ax_array_clone::<T, 4>(); ax_array_clone::<T, 8>();  }
//@prologue join proof { lemma_array_law::<T, 8>(); lemma_array_law::<T, 4>(); ax_array_clone::<T, 4>(); ax_array_clone::<T, 8>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;4],[T;4]> for [T;8]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;4], l: [T;4]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;4], l: [T;4]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 8] as VebKeyRef<[T;4], [T;4]>>::rh(self, h, l) by { } }
//@endimpl
//@impl src/key.rs VebKey for [T;16]
    open spec fn klaws() -> bool { lawful::<T>() && clone_ok::<T>() }
    open spec fn kv(self) -> bool { true }
    open spec fn hv(h: [T;8]) -> bool { true }
    open spec fn lv(l: [T;8]) -> bool { true }
    open spec fn halves(self, h: [T;8], l: [T;8]) -> bool { self@ =~= h@ + l@ }
    proof fn lemma_key(a: Self, ah: [T;8], al: [T;8], b: Self, bh: [T;8], bl: [T;8]) { lemma_array_law::<T, 16>(); lemma_array_law::<T, 8>(); lemma_lex(a@, ah@, al@, b@, bh@, bl@); }
//@prologue split_val proof { lemma_array_law::<T, 16>(); lemma_array_law::<T, 8>(); ax_array_clone::<T, 8>(); ax_array_clone::<T, 16>();  }
//@prologue join proof { lemma_array_law::<T, 16>(); lemma_array_law::<T, 8>(); ax_array_clone::<T, 8>(); ax_array_clone::<T, 16>();  }
//@endimpl
//@impl src/key.rs VebKeyRef<[T;8],[T;8]> for [T;16]
    open spec fn rlaws() -> bool { true }
    open spec fn rv(&self) -> bool { true }
    open spec fn rh(&self, h: [T;8], l: [T;8]) -> bool { self@ =~= h@ + l@ }
//@prologue split_ref proof { assert forall|h: [T;8], l: [T;8]| #![trigger h@, l@] self@ =~= h@ + l@ implies <[T; 16] as VebKeyRef<[T;8], [T;8]>>::rh(self, h, l) by { } }
//@endimpl
} // verus!
fn main() {}
