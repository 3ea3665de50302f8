#!/usr/bin/env python3
"""Writes contracts/keys.vrs, keybits.vrs and instkeys.vrs, whose sections repeat per integer width and per array length."""
from pathlib import Path
OUT = Path(__file__).resolve().parent.parent / "contracts/keys.vrs"
BITS = OUT.with_name("keybits.vrs")
INST = OUT.with_name("instkeys.vrs")
L = []
def o(s): L.append(s)

o('''#![allow(unused_imports, dead_code, unused_variables, unused_parens)]
#![feature(allocator_api)]
#![recursion_limit = "256"]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::*;

verus! {
global size_of usize == 8;
//@include order.vrs
//@include borrow.vrs
//@include maybe_borrowed.vrs

// ---- trusted: what core documents of the order and of Clone of bool, unit and arrays
pub axiom fn ax_bool() ensures lawful_ops::<bool>(), forall|a: bool, b: bool| #[trigger] klt(a, b) <==> !a && b;
pub axiom fn ax_unit() ensures lawful_ops::<()>(), forall|a: (), b: ()| !#[trigger] klt(a, b);
pub open spec fn lex<T: Ord>(a: Seq<T>, b: Seq<T>) -> bool { exists|i: int| #[trigger] lex_at(a, b, i) }
pub open spec fn lex_at<T: Ord>(a: Seq<T>, b: Seq<T>, i: int) -> bool { 0 <= i < a.len() && i < b.len() && klt(a[i], b[i]) && forall|j: int| 0 <= j < i ==> #[trigger] a[j] == b[j] }
pub axiom fn ax_array<T: Ord, const N: usize>()
    ensures lawful::<T>() ==> lawful_ops::<[T; N]>() && forall|a: [T; N], b: [T; N]| #[trigger] klt(a, b) <==> lex(a@, b@);
pub axiom fn ax_array_clone<T: Clone, const N: usize>() ensures clone_ok::<T>() ==> clone_ok::<[T; N]>();

//@include arrays.vrs

// ---- the contract of a key type
pub trait VebKey: Ord + Sized {
    type Hi: Ord;
    type Lo: Ord;
    /// what is assumed of the element type
    spec fn klaws() -> bool;
    /// the values which can be built through the public interface
    spec fn kv(self) -> bool;
    spec fn hv(h: Self::Hi) -> bool;
    spec fn lv(l: Self::Lo) -> bool;
    /// h and l are the halves of self
    spec fn halves(self, h: Self::Hi, l: Self::Lo) -> bool;
    /// two keys are equal exactly if their halves are, and ordered as their halves lexicographically
    proof fn lemma_key(a: Self, ah: Self::Hi, al: Self::Lo, b: Self, bh: Self::Hi, bl: Self::Lo)
        requires Self::klaws(), a.kv(), b.kv(), Self::hv(ah), Self::lv(al), Self::hv(bh), Self::lv(bl), a.halves(ah, al), b.halves(bh, bl)
        ensures a == b <==> ah == bh && al == bl,
            klt(a, b) <==> klt(ah, bh) || (ah == bh && klt(al, bl)),
            lawful::<Self>(), lawful::<Self::Hi>(), lawful::<Self::Lo>();

    fn split_val(self) -> (r: (Self::Hi, Self::Lo))
       requires Self::klaws(), self.kv()
       ensures self.halves(r.0, r.1), Self::hv(r.0), Self::lv(r.1);
    fn join<'a>(hi: MaybeBorrowed<'a, Self::Hi>, lo: MaybeBorrowed<'a, Self::Lo>) -> (r: Self)
       requires Self::klaws(), Self::hv(hi.v()), Self::lv(lo.v())
       ensures r.halves(hi.v(), lo.v()), r.kv();
}
pub trait VebKeyRef<Hi: Ord, Lo: Ord> {
    spec fn rlaws() -> bool;
    spec fn rv(&self) -> bool;
    spec fn rh(&self, h: Hi, l: Lo) -> bool;
    /// the function is called once, with the halves
    fn split_ref<F, R>(&self, f: F) -> (r: R)
    where
        F: FnOnce(&Hi, &Lo) -> R
    requires Self::rlaws(), self.rv(), forall|h: Hi, l: Lo| #[trigger] self.rh(h, l) ==> f.requires((&h, &l)),
    ensures exists|h: Hi, l: Lo| #[trigger] self.rh(h, l) && f.ensures((&h, &l), r);
}
pub trait CloneVebKeyRef: VebKey + Clone + Ord {}
pub open spec fn rsplit<K: VebKeyRef<H, L>, H: Ord, L: Ord>(k: K, h: H, l: L) -> bool { k.rh(h, l) }
//@impl src/key.rs VebKeyRef<T::Hi,T::Lo> for T
    open spec fn rlaws() -> bool { T::klaws() && clone_ok::<T>() }
    open spec fn rv(&self) -> bool { self.kv() }
    open spec fn rh(&self, h: T::Hi, l: T::Lo) -> bool { self.halves(h, l) && T::hv(h) && T::lv(l) }
//@prologue split_ref proof { assert forall|h: T::Hi, l: T::Lo| #[trigger] self.halves(h, l) && T::hv(h) && T::lv(l) implies <T as VebKeyRef<T::Hi, T::Lo>>::rh(self, h, l) by { } }
//@endimpl

// ---- indices
pub struct Card<const N: u128>;
pub trait Unsigned { spec fn card() -> int; }
impl<const N: u128> Unsigned for Card<N> { open spec fn card() -> int { N as int } }
pub trait SizedVebKey: Sized {
    type Cardinality: Unsigned;
    spec fn ixv(&self) -> bool;
    spec fn ix(&self) -> int;
    proof fn lemma_ix(a: &Self, b: &Self) requires a.ixv(), b.ixv(), a.ix() == b.ix() ensures a == b;
    fn index(&self) -> (r: usize) requires self.ixv() ensures r == self.ix(), r < Self::Cardinality::card();
}
''')

o('//@include keybits.vrs')
MAIN, L = L, []
# ---- lemmas on machine integers
for n in (8, 16, 32, 64, 128):
    T = 1 << n
    o(f'''pub assume_specification [i{n}::abs_diff] (a: i{n}, b: i{n}) -> (r: u{n}) ensures r == if a < b {{ b - a }} else {{ a - b }};
pub assume_specification [u{n}::abs_diff] (a: u{n}, b: u{n}) -> (r: u{n}) ensures r == if a < b {{ b - a }} else {{ a - b }};
pub assume_specification [i{n}::unsigned_abs] (a: i{n}) -> (r: u{n}) ensures r == if a < 0 {{ -a }} else {{ a as int }};
pub assume_specification [i{n}::cast_unsigned] (a: i{n}) -> (r: u{n}) ensures r == a as u{n};
pub assume_specification [u{n}::cast_signed] (a: u{n}) -> (r: i{n}) ensures r == a as i{n};''')
PW = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64, 128: 1 << 128}
def lemmas(n):
    m = n // 2
    P = 1 << m
    S = 1 << (n - 1)
    u, i, h = f"u{n}", f"i{n}", f"u{m}"
    f = []
    def bv(s): f.append(f"    assert({s}) by(bit_vector);")
    ens = []
    def both(s): ens.append(s); bv(s)
    if m >= 8:
        both(f"forall|x: {u}| #[trigger] (x as {h}) == x % {P}{u}" if False else f"forall|x: {u}| #[trigger] (x as {h}) as {u} == x % {P}{u}")
    both(f"forall|x: {u}| #[trigger] (x >> {m}{u}) == x / {P}{u}")
    both(f"forall|x: {u}| x < {P}{u} ==> #[trigger] (x << {m}{u}) == x * {P}{u}")
    both(f"forall|x: {u}| #[trigger] (x & {P-1}{u}) == x % {P}{u}")
    both(f"forall|x: {u}, y: {u}| #![trigger (x << {m}{u}) | y] x < {P}{u} && y < {P}{u} ==> (x << {m}{u}) | y == x * {P}{u} + y")
    both(f"forall|x: {u}, y: {u}| #![trigger (x << {m}{u}) ^ y] x < {P}{u} && y < {P}{u} ==> (x << {m}{u}) ^ y == x * {P}{u} + y")
    both(f"forall|x: {u}, y: {u}| #![trigger y | (x << {m}{u})] x < {P}{u} && y < {P}{u} ==> y | (x << {m}{u}) == x * {P}{u} + y")
    both(f"forall|x: {u}| #[trigger] (x ^ {S}{u}) == if x < {S}{u} {{ add(x, {S}{u}) }} else {{ sub(x, {S}{u}) }}")
    both(f"(1{u} << {n-1}{u}) == {S}{u}")
    both(f"forall|x: {i}| #[trigger] (x ^ {i}::MIN) == if x < 0 {{ sub(x, {i}::MIN) }} else {{ add(x, {i}::MIN) }}")
    both(f"forall|x: {u}, y: {u}| #![trigger y ^ (x << {m}{u})] x < {P}{u} && y < {P}{u} ==> y ^ (x << {m}{u}) == x * {P}{u} + y")
    return ens, f

for n in (8, 16, 32, 64, 128):
    ens, f = lemmas(n)
    o(f"pub proof fn lemma_bits_u{n}() ensures\n" + ",\n".join("    " + e for e in ens) + "\n{\n" + "\n".join(f) + "\n}")
    m, P, S, u, i = n // 2, 1 << (n // 2), 1 << (n - 1), f"u{n}", f"i{n}"
    sens = [f"forall|x: {i}| #[trigger] (x as {u}) == if x >= 0 {{ x as int }} else {{ x + {1 << n} }}",
            f"forall|x: {u}| #[trigger] (x as {i}) == if x < {S} {{ x as int }} else {{ x - {1 << n} }}"]
    o(f"pub proof fn lemma_sign_{n}() ensures\n" + ",\n".join("    " + e for e in sens) + "\n{\n"
      + f"    assert(forall|x: {i}| x < 0 ==> #[trigger] (x as {u}) == sub({2*S-1}{u}, sub(-1{i}, x) as {u})) by(bit_vector);\n"
      + f"    assert(forall|x: {u}| x >= {S}{u} ==> #[trigger] (x as {i}) == sub(-1{i}, sub({2*S-1}{u}, x) as {i})) by(bit_vector);\n"
      + "}")

BITS.write_text("\n".join(L) + "\n")
L = MAIN
ORD = {"()": "ax_unit();", "bool": "ax_bool();"}

def intkey(n, signed, hi, hv, hval, extra_valid="true"):
    pass

def keyimpl(ty, hi, lo, kv, hv, lv, halves, pro_common, pro_split="", pro_join="", klaws="true", gens="", lemma=""):
    o(f'''//@impl src/key.rs VebKey for {ty}
    open spec fn klaws() -> bool {{ {klaws} }}
    open spec fn kv(self) -> bool {{ {kv} }}
    open spec fn hv(h: {hi}) -> bool {{ {hv} }}
    open spec fn lv(l: {lo}) -> bool {{ {lv} }}
    open spec fn halves(self, h: {hi}, l: {lo}) -> bool {{ {halves} }}
    proof fn lemma_key(a: Self, ah: {hi}, al: {lo}, b: Self, bh: {hi}, bl: {lo}) {{ {lemma} }}
//@prologue split_val proof {{ {pro_common} {pro_split} }}
//@prologue join proof {{ {pro_common} {pro_join} }}
//@endimpl''')

def sized(ty, ixv, ix, pro):
    # the constant counts the keys, as far as `usize` can (the type `Cardinality` is exact)
    bits = {'()': 0, 'U2': 2, 'U4': 4}.get(ty) if ty[0] not in 'iu' else int(ty[1:])
    cst = min(2 ** bits, 2 ** 64 - 1)
    o(f'''//@impl src/key.rs SizedVebKey for {ty}
//@const CARDINALITY ensures r == {cst} | proof {{ lemma_shl_usize(); }}
    open spec fn ixv(&self) -> bool {{ {ixv} }}
    open spec fn ix(&self) -> int {{ {ix} }}
    proof fn lemma_ix(a: &Self, b: &Self) {{ }}
//@prologue index proof {{ {pro} }}
//@endimpl''')

# ---- the small integers
o('''//@struct src/key.rs U4 noclone
impl Copy for U4 {}
//@cloneof src/key.rs U4
    ensures r == *self
//@end
//@struct src/key.rs U2 noclone
impl Copy for U2 {}
//@cloneof src/key.rs U2
    ensures r == *self
//@end
''')
for t, B, M in (("U4", 4, 15), ("U2", 2, 3)):
    o(f'''impl PartialEqSpecImpl for {t} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{t}) -> bool {{ self.0 == o.0 }} }}
impl PartialOrdSpecImpl for {t} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{t}) -> Option<Ordering> {{ PartialOrdSpec::partial_cmp_spec(&self.0, &o.0) }} }}
impl OrdSpecImpl for {t} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} open spec fn cmp_spec(&self, o: &{t}) -> Ordering {{ OrdSpec::cmp_spec(&self.0, &o.0) }} }}
//@cmpof src/key.rs {t}
impl vstd::std_specs::convert::FromSpecImpl<u8> for {t} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: u8) -> Self {{ arbitrary() }} }}
impl vstd::std_specs::ops::ShlSpecImpl<usize> for {t} {{ open spec fn obeys_shl_spec() -> bool {{ false }} open spec fn shl_req(self, rhs: usize) -> bool {{ self.0 < {M+1} && rhs < 8 }} open spec fn shl_spec(self, rhs: usize) -> {t} {{ arbitrary() }} }}
impl vstd::std_specs::ops::ShrSpecImpl<usize> for {t} {{ open spec fn obeys_shr_spec() -> bool {{ false }} open spec fn shr_req(self, rhs: usize) -> bool {{ self.0 < {M+1} && rhs < 8 }} open spec fn shr_spec(self, rhs: usize) -> {t} {{ arbitrary() }} }}
impl vstd::std_specs::ops::BitOrSpecImpl<{t}> for {t} {{ open spec fn obeys_bitor_spec() -> bool {{ false }} open spec fn bitor_req(self, rhs: {t}) -> bool {{ self.0 < {M+1} && rhs.0 < {M+1} }} open spec fn bitor_spec(self, rhs: {t}) -> {t} {{ arbitrary() }} }}
//@inherent src/key.rs {t}
//@const BITS ensures {t}::BITS == {B}
//@const MAX ensures {t}::MAX == {M} | proof {{ assert(255u8 >> {8-B}u32 == {M}u8) by(bit_vector); lemma_small(); }}
//@contract new -> r
    ensures r.0 == v
//@end
//@endimpl
//@impl src/key.rs From<u8> for {t}
//@contract from -> r
    ensures r.0 == value % {M+1}, r.0 < {M+1}
//@end
//@prologue from proof {{ lemma_small(); }}
//@endimpl
//@impl src/key.rs BitOr for {t}
//@contract bitor -> r
    ensures r.0 == (self.0 | rhs.0) % {M+1}, r.0 < {M+1}
//@end
//@prologue bitor proof {{ lemma_small(); }}
//@endimpl
//@impl src/key.rs Shl<usize> for {t}
//@contract shl -> r
    ensures r.0 == (self.0 << rhs) % {M+1}, r.0 < {M+1}
//@end
//@prologue shl proof {{ lemma_small(); }}
//@endimpl
//@impl src/key.rs Shr<usize> for {t}
//@contract shr -> r
    ensures r.0 == (self.0 >> rhs) % {M+1}, r.0 < {M+1}
//@end
//@prologue shr proof {{ lemma_small(); }}
//@endimpl''')
def conv(src, dst, ens, pro="lemma_small();"):
    ty = dst
    o(f'''impl vstd::std_specs::convert::FromSpecImpl<{src}> for {dst} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {src}) -> Self {{ arbitrary() }} }}
//@impl src/key.rs From<{src}> for {dst}
//@contract from -> r
    ensures {ens}
//@end
//@prologue from proof {{ {pro} }}
//@endimpl''')
conv("U4", "u8", "r == value.0")
conv("U4", "U2", "r.0 == value.0 % 4, r.0 < 4")
conv("U2", "U4", "r.0 == value.0")
conv("U2", "bool", "r == (value.0 % 2 == 1)")
o('''pub proof fn lemma_shl_usize() ensures 1usize << 0usize == 1usize, 1usize << 2usize == 4usize, 1usize << 4usize == 16usize, 1usize << 8usize == 256usize, 1usize << 16usize == 65536usize, 1usize << 32usize == 4294967296usize, 1usize << 0i32 == 1usize, 1usize << 2i32 == 4usize, 1usize << 4i32 == 16usize, 1usize << 8i32 == 256usize, 1usize << 16i32 == 65536usize, 1usize << 32i32 == 4294967296usize, 1usize << 0u32 == 1usize, 1usize << 2u32 == 4usize, 1usize << 4u32 == 16usize, 1usize << 8u32 == 256usize, 1usize << 16u32 == 65536usize, 1usize << 32u32 == 4294967296usize
{
    assert(1usize << 0usize == 1usize) by(bit_vector);
    assert(1usize << 2usize == 4usize) by(bit_vector);
    assert(1usize << 4usize == 16usize) by(bit_vector);
    assert(1usize << 8usize == 256usize) by(bit_vector);
    assert(1usize << 16usize == 65536usize) by(bit_vector);
    assert(1usize << 32usize == 4294967296usize) by(bit_vector);
    assert(1usize << 0i32 == 1usize) by(bit_vector);
    assert(1usize << 2i32 == 4usize) by(bit_vector);
    assert(1usize << 4i32 == 16usize) by(bit_vector);
    assert(1usize << 8i32 == 256usize) by(bit_vector);
    assert(1usize << 16i32 == 65536usize) by(bit_vector);
    assert(1usize << 32i32 == 4294967296usize) by(bit_vector);
    assert(1usize << 0u32 == 1usize) by(bit_vector);
    assert(1usize << 2u32 == 4usize) by(bit_vector);
    assert(1usize << 4u32 == 16usize) by(bit_vector);
    assert(1usize << 8u32 == 256usize) by(bit_vector);
    assert(1usize << 16u32 == 65536usize) by(bit_vector);
    assert(1usize << 32u32 == 4294967296usize) by(bit_vector);
}
pub proof fn lemma_small() ensures
    forall|x: u8| #[trigger] (x & 15u8) == x % 16u8, forall|x: u8| #[trigger] (15u8 & x) == x % 16u8,
    forall|x: u8| #[trigger] (x & 3u8) == x % 4u8, forall|x: u8| #[trigger] (3u8 & x) == x % 4u8,
    forall|x: u8| #[trigger] (x & 1u8) == x % 2u8, forall|x: u8| #[trigger] (1u8 & x) == x % 2u8,
    forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8, forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8, forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8,
    forall|x: u8, y: u8| #![trigger x | y] (x < 16u8 && y < 16u8 ==> (x | y) < 16u8) && (x < 4u8 && y < 4u8 ==> (x | y) < 4u8), forall|x: u8| #![trigger x >> 1u8] x >> 1u8 <= x,
    forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8, forall|x: u8| x < 64u8 ==> #[trigger] (x << 2u8) == x * 4u8, forall|x: u8| x < 128u8 ==> #[trigger] (x << 1u8) == x * 2u8,
    forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger (x << 2u8) | y] x < 64u8 && y < 4u8 ==> (x << 2u8) | y == x * 4u8 + y,
    forall|x: u8, y: u8| #![trigger (x << 1u8) | y] x < 128u8 && y < 2u8 ==> (x << 1u8) | y == x * 2u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 2u8)] x < 64u8 && y < 4u8 ==> y | (x << 2u8) == x * 4u8 + y,
    forall|x: u8, y: u8| #![trigger y | (x << 1u8)] x < 128u8 && y < 2u8 ==> y | (x << 1u8) == x * 2u8 + y,
{
    assert(forall|x: u8, y: u8| #![trigger x | y] (x < 16u8 && y < 16u8 ==> (x | y) < 16u8) && (x < 4u8 && y < 4u8 ==> (x | y) < 4u8)) by(bit_vector); assert(forall|x: u8| #![trigger x >> 1u8] x >> 1u8 <= x) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 15u8) == x % 16u8) by(bit_vector); assert(forall|x: u8| #[trigger] (15u8 & x) == x % 16u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 3u8) == x % 4u8) by(bit_vector); assert(forall|x: u8| #[trigger] (3u8 & x) == x % 4u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x & 1u8) == x % 2u8) by(bit_vector); assert(forall|x: u8| #[trigger] (1u8 & x) == x % 2u8) by(bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8) by(bit_vector); assert(forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8) by(bit_vector); assert(forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8) by(bit_vector);
    assert(forall|x: u8| x < 16u8 ==> #[trigger] (x << 4u8) == x * 16u8) by(bit_vector); assert(forall|x: u8| x < 64u8 ==> #[trigger] (x << 2u8) == x * 4u8) by(bit_vector); assert(forall|x: u8| x < 128u8 ==> #[trigger] (x << 1u8) == x * 2u8) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 4u8) | y] x < 16u8 && y < 16u8 ==> (x << 4u8) | y == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 2u8) | y] x < 64u8 && y < 4u8 ==> (x << 2u8) | y == x * 4u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger (x << 1u8) | y] x < 128u8 && y < 2u8 ==> (x << 1u8) | y == x * 2u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 4u8)] x < 16u8 && y < 16u8 ==> y | (x << 4u8) == x * 16u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 2u8)] x < 64u8 && y < 4u8 ==> y | (x << 2u8) == x * 4u8 + y) by(bit_vector);
    assert(forall|x: u8, y: u8| #![trigger y | (x << 1u8)] x < 128u8 && y < 2u8 ==> y | (x << 1u8) == x * 2u8 + y) by(bit_vector);
}''')

keyimpl("()", "()", "()", "true", "true", "true", "true", "", lemma="ax_unit();")
keyimpl("U2", "bool", "bool", "self.0 < 4", "true", "true", "self.0 == (if h { 2int } else { 0int }) + (if l { 1int } else { 0int })", "lemma_small();", lemma="ax_bool();")
keyimpl("U4", "U2", "U2", "self.0 < 16", "h.0 < 4", "l.0 < 4", "self.0 == h.0 * 4 + l.0", "lemma_small();")
keyimpl("u8", "U4", "U4", "true", "h.0 < 16", "l.0 < 16", "self == h.0 * 16 + l.0", "lemma_small(); lemma_bits_u8();")
keyimpl("i8", "U4", "U4", "true", "h.0 < 16", "l.0 < 16", "self + 128 == h.0 * 16 + l.0", "lemma_small(); lemma_bits_u8(); lemma_sign_8();")
for n in (16, 32, 64, 128):
    m, P, S = n // 2, 1 << (n // 2), 1 << (n - 1)
    keyimpl(f"u{n}", f"u{m}", f"u{m}", "true", "true", "true", f"self == h * {P} + l", f"lemma_bits_u{n}();")
    keyimpl(f"i{n}", f"u{m}", f"u{m}", "true", "true", "true", f"self + {S} == h * {P} + l", f"lemma_bits_u{n}(); lemma_sign_{n}();")
sized("()", "true", "0", "")
sized("U2", "self.0 < 4", "self.0 as int", "")
sized("U4", "self.0 < 16", "self.0 as int", "")
for n in (8, 16, 32, 64):
    sized(f"u{n}", "true", "*self as int", f"lemma_bits_u{n}(); lemma_sign_{n}();")
    sized(f"i{n}", "true", f"*self + {1 << (n-1)}", f"lemma_bits_u{n}(); lemma_sign_{n}(); lemma_sign_64();")

# ---- arrays
o('''pub proof fn lemma_lex<T: Ord>(a: Seq<T>, ah: Seq<T>, al: Seq<T>, b: Seq<T>, bh: Seq<T>, bl: Seq<T>)
    requires a == ah + al, b == bh + bl, ah.len() == bh.len(), al.len() == bl.len(), lawful::<T>()
    ensures a == b <==> ah == bh && al == bl, lex(a, b) <==> lex(ah, bh) || (ah == bh && lex(al, bl))
{
    let n = ah.len() as int;
    assert(a.subrange(0, n) =~= ah); assert(b.subrange(0, n) =~= bh);
    assert(a.subrange(n, a.len() as int) =~= al); assert(b.subrange(n, b.len() as int) =~= bl);
    if lex(a, b) {
        let i = choose|i: int| lex_at(a, b, i);
        if i < n { assert forall|j: int| 0 <= j < i implies #[trigger] ah[j] == bh[j] by { assert(a[j] == b[j]); } assert(lex_at(ah, bh, i)); }
        else {
            assert(ah =~= bh) by { assert forall|j: int| 0 <= j < n implies ah[j] == bh[j] by { assert(a[j] == b[j]); } }
            assert forall|j: int| 0 <= j < i - n implies #[trigger] al[j] == bl[j] by { assert(a[j + n] == b[j + n]); }
            assert(lex_at(al, bl, i - n));
        }
    }
    if lex(ah, bh) { let i = choose|i: int| lex_at(ah, bh, i); assert forall|j: int| 0 <= j < i implies #[trigger] a[j] == b[j] by { assert(ah[j] == bh[j]); } assert(lex_at(a, b, i)); }
    if ah == bh && lex(al, bl) {
        let i = choose|i: int| lex_at(al, bl, i);
        assert forall|j: int| 0 <= j < i + n implies #[trigger] a[j] == b[j] by { if j < n { assert(ah[j] == bh[j]); } else { assert(al[j - n] == bl[j - n]); } }
        assert(lex_at(a, b, i + n));
    }
}
pub proof fn lemma_lex1<T: Ord>(x: T, y: T) requires lawful::<T>() ensures lex(seq![x], seq![y]) <==> klt(x, y), seq![x] == seq![y] <==> x == y
{ if klt(x, y) { assert(lex_at(seq![x], seq![y], 0)); } assert(seq![x][0] == x); assert(seq![y][0] == y); }
pub proof fn lemma_array_law<T: Ord, const N: usize>() ensures lawful::<T>() ==> lawful::<[T; N]>() && (forall|a: [T; N], b: [T; N]| #[trigger] klt(a, b) <==> lex(a@, b@)) && (forall|a: [T; N], b: [T; N]| #![trigger a@, b@] a@ == b@ <==> a == b)
{
    ax_array::<T, N>();
    if lawful::<T>() {
        assert forall|a: [T; N], b: [T; N], c: [T; N]| #[trigger] klt(a, b) && #[trigger] klt(b, c) implies klt(a, c) by {
            let i = choose|i: int| lex_at(a@, b@, i); let j = choose|j: int| lex_at(b@, c@, j);
            let k = if i <= j { i } else { j };
            assert forall|x: int| 0 <= x < k implies #[trigger] a@[x] == c@[x] by { assert(a@[x] == b@[x]); assert(b@[x] == c@[x]); }
            assert(b@[k] == b[k]);
            if i < j { assert(b@[i] == c@[i]); } else if j < i { assert(a@[j] == b@[j]); } else { assert(klt(a@[i], b@[i]) && klt(b@[i], c@[i])); }
            assert(lex_at(a@, c@, k));
        }
        assert forall|a: [T; N], b: [T; N]| #![trigger a@, b@] a@ == b@ implies a == b by { assert(a =~= b); }
    }
}''')
def sq(x, n): return f"{x}@" if n > 1 else f"seq![{x}]"
def aty(n): return f"[T;{n}]" if n > 1 else "T"
SPL = {2: (1, 1), 3: (1, 2), 4: (2, 2), 5: (2, 3), 6: (3, 3), 7: (3, 4), 8: (4, 4), 16: (8, 8)}
for N, (a, b) in SPL.items():
    law = f"lemma_array_law::<T, {N}>();" + "".join(f" lemma_array_law::<T, {x}>();" for x in sorted({a, b}) if x > 1)
    cl = "".join(f" ax_array_clone::<T, {x}>();" for x in sorted({a, b, N}) if x > 1)
    lem = law + f" lemma_lex(a@, {sq('ah', a)}, {sq('al', b)}, b@, {sq('bh', a)}, {sq('bl', b)});"
    if a == 1: lem += " lemma_lex1(ah, bh);"
    if b == 1: lem += " lemma_lex1(al, bl);"
    keyimpl(f"[T;{N}]", aty(a), aty(b), "true", "true", "true", f"self@ =~= {sq('h', a)} + {sq('l', b)}", law + cl, klaws="lawful::<T>() && clone_ok::<T>()", lemma=lem)
    H = "self@[0]" if a == 1 else "h"
    Lw = "self@[1]" if b == 1 else "l"
    vs = ", ".join(([] if a == 1 else [f"h: {aty(a)}"]) + ([] if b == 1 else [f"l: {aty(b)}"]))
    tr = ", ".join(([] if a == 1 else ["h@"]) + ([] if b == 1 else ["l@"]))
    call = f"<[T; {N}] as VebKeyRef<{aty(a)}, {aty(b)}>>::rh(self, {H}, {Lw})"
    eq = f"self@ =~= {sq(H, a) if a > 1 else 'seq![' + H + ']'} + {sq(Lw, b) if b > 1 else 'seq![' + Lw + ']'}"
    ref = f"assert({call});" if not vs else f"assert forall|{vs}| #![trigger {tr}] {eq} implies {call} by {{ }}"
    o(f'''//@impl src/key.rs VebKeyRef<{aty(a)},{aty(b)}> for [T;{N}]
    open spec fn rlaws() -> bool {{ true }}
    open spec fn rv(&self) -> bool {{ true }}
    open spec fn rh(&self, h: {aty(a)}, l: {aty(b)}) -> bool {{ self@ =~= {sq('h', a)} + {sq('l', b)} }}
//@prologue split_ref proof {{ {ref} }}
//@endimpl''')
o('''} // verus!
fn main() {}''')
OUT.write_text("\n".join(L) + "\n")

# ---- the integers as keys of the trees and collections (unit instances): the halves as functions
L = []
for n in (16, 32, 64, 128):
    m, P, S = n // 2, 1 << (n // 2), 1 << (n - 1)
    for sgn, ofs in (("u", 0), ("i", S)):
        t, h = f"{sgn}{n}", f"u{m}"
        x = "(self as int)" if not ofs else f"(self + {S})"
        sign = f" lemma_sign_{n}();" if ofs else ""
        o(f'''impl CloneVebKeyRef for {t} {{}}
//@impl src/key.rs VebKey for {t}
    open spec fn klaws() -> bool {{ true }}
    open spec fn hi(self) -> {h} {{ ({x} / {P}) as {h} }}
    open spec fn lo(self) -> {h} {{ ({x} % {P}) as {h} }}
    open spec fn mk(h: {h}, l: {h}) -> Self {{ (h * {P} + l{f' - {S}' if ofs else ''}) as {t} }}
    proof fn lemma_key() {{ }}
//@prologue split_val proof {{ lemma_bits_u{n}();{sign} }}
//@prologue join proof {{ lemma_bits_u{n}();{sign} }}
//@endimpl''')
for n in (8, 16, 32):
    for sgn, ofs in (("u", 0), ("i", 1 << (n - 1))):
        o(f'''//@impl src/key.rs SizedVebKey for {sgn}{n}
//@skipconst CARDINALITY
    open spec fn slaws() -> bool {{ true }}
    open spec fn ix(self) -> int {{ self + {ofs} }}
//@prologue index proof {{ lemma_bits_u{n}(); lemma_sign_{n}(); lemma_sign_64(); }}
//@endimpl''')
INST.write_text("\n".join(L) + "\n")
