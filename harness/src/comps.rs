//! The compositions (tree types) under test.
use crate::hist::*;
use crate::reftree::*;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use veb_tree::tree::*;
use veb_tree::{SizedVebTree, VebTree};

macro_rules! ikey { ($($t:ty),*) => { $(impl HKey for $t {
    const BITS: u32 = <$t>::BITS;
    fn from_raw(r: u128) -> Self { r as $t }
})* } }
ikey!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl HKey for U4 {
    const BITS: u32 = 4;
    fn from_raw(r: u128) -> Self { U4::from((r & 15) as u8) }
}
impl HKey for U2 {
    const BITS: u32 = 2;
    fn from_raw(r: u128) -> Self { U2::from((r & 3) as u8) }
}
impl HKey for () {
    const BITS: u32 = 0;
    fn from_raw(_: u128) -> Self {}
}
impl<T: HKey, const N: usize> HKey for [T; N] {
    const BITS: u32 = T::BITS * N as u32;
    fn from_raw(r: u128) -> Self {
        std::array::from_fn(|i| {
            let sh = T::BITS * (N - 1 - i) as u32;
            let x = if sh >= 128 { 0 } else { r >> sh };
            T::from_raw(if T::BITS >= 128 { x } else { x & ((1u128 << T::BITS) - 1) })
        })
    }
}

/// Marker for a size-tracking tree.
pub struct SizedMarker<M>(std::marker::PhantomData<M>);
impl<K: Ord, V, M: VebTreeMarker<K, V>> VebTreeMarker<K, V> for SizedMarker<M> {
    type Tree = SizedVebTree<M::Tree>;
}
/// Marker for the standard map as a tree.
pub struct StdMapMarker;
impl<K: Ord, V> VebTreeMarker<K, V> for StdMapMarker {
    type Tree = std::collections::BTreeMap<K, V>;
}

pub struct Comp {
    pub name: &'static str,
    pub bits: u32,
    /// how many keys a tree of this type may sensibly hold in one history (large arrays are slow)
    pub heavy: bool,
    pub run: fn(&[Op], Option<&str>) -> Outcome,
}

fn slen<T: VebTree>(t: &SizedVebTree<T>) -> usize { t.len().get() }
/// the length of an iterator over a size-tracking tree, after `a` steps from the front and `b` from the back
fn ilen<T: VebTree>(t: &SizedVebTree<T>, a: usize, b: usize) -> usize where T::Key: Clone {
    let mut i = veb_tree::Iter::from(t);
    for _ in 0..a { i.next(); }
    for _ in 0..b { i.next_back(); }
    i.len()
}
fn cloned<T: Clone>(t: &T, over: Option<T>) -> T {
    match over {
        None => t.clone(),
        Some(mut o) => { o.clone_from(t); o }
    }
}
fn slen_set(t: &ByteSet) -> usize { let n = t.len().get(); if (t.lowest() == t.highest()) != (n == 1) { usize::MAX } else { n } }

macro_rules! comp {
    ($v:ident, $name:expr, $k:ty, $val:ty, $m:ty, heavy $h:expr, clone $c:expr, len $l:expr, exact $e:expr, ilen $i:expr, family $f:expr) => {{
        fn go(ops: &[Op], want: Option<&str>) -> Outcome {
            type T = <$m as VebTreeMarker<$k, $val>>::Tree;
            let caps: Caps<T> = Caps { clone: $c, len: $l, exact: $e, ilen: $i, family: $f };
            run::<T, $k, $val>(ops, &caps, want)
        }
        $v.push(Comp { name: $name, bits: <$k as HKey>::BITS, heavy: $h, run: go });
    }};
    ($v:ident, $name:expr, $k:ty, $val:ty, $m:ty) => { comp!($v, $name, $k, $val, $m, heavy false, clone None, len None, exact None, ilen None, family &[]) };
    ($v:ident, $name:expr, $k:ty, $val:ty, $m:ty, clone) => { comp!($v, $name, $k, $val, $m, heavy false, clone Some(cloned), len None, exact None, ilen None, family &[]) };
    ($v:ident, $name:expr, $k:ty, $val:ty, $m:ty, heavy) => { comp!($v, $name, $k, $val, $m, heavy true, clone None, len None, exact None, ilen None, family &[]) };
}

type Rh = HashMapMarker<RefMarker>;
type Vq = VecDequeMarker;

pub fn comps() -> Vec<Comp> {
    let mut v: Vec<Comp> = vec![];
    // leaves
    comp!(v, "ByteSet", u8, (), ByteSetMarker, heavy false, clone Some(cloned), len Some((slen_set, "P20")), exact Some("P20"), ilen None, family &["P20"]);
    comp!(v, "ByteMap<u32>", u8, u32, Marker8);
    comp!(v, "ByteMap<String>", u8, String, Marker8);
    // shipped markers
    comp!(v, "Marker16", u16, u32, Marker16);
    comp!(v, "Marker16-i16-String", i16, String, Marker16);
    comp!(v, "Marker16Empty", u16, (), Marker16Empty);
    comp!(v, "Marker32", u32, u32, Marker32, heavy);
    comp!(v, "Marker32-i32", i32, u32, Marker32, heavy);
    comp!(v, "Marker32Empty", u32, (), Marker32Empty, heavy);
    // the tree over reference parts
    comp!(v, "Tree<u8>/ref", u8, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<U4>/ref", U4, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<i8>/ref", i8, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<i16>/ref", i16, String, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<u64>/ref", u64, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<i64>/ref", i64, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<u128>/ref", u128, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<i128>/ref", i128, u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;2]>/ref", [u8; 2], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;3]>/ref", [u8; 3], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;4]>/ref", [u8; 4], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;5]>/ref", [u8; 5], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;6]>/ref", [u8; 6], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;7]>/ref", [u8; 7], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;8]>/ref", [u8; 8], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[u8;16]>/ref", [u8; 16], u32, TreeMarker<RefMarker, Rh>, clone);
    comp!(v, "Tree<[i16;2]>/hash", [i16; 2], u32, TreeMarker<RefMarker, Rh>, clone);
    // nested trees
    comp!(v, "u64/hash/Marker32", u64, u32, TreeMarker<RefMarker, HashMapMarker<TreeMarker<RefMarker, HashMapMarker<Marker16>>>>);
    comp!(v, "u32/hash/Marker16", u32, u32, TreeMarker<Marker16Empty, HashMapMarker<BoxMarker<Marker16>>>);
    comp!(v, "i32/hash/Marker16", i32, String, TreeMarker<Marker16Empty, HashMapMarker<Marker16>>);
    comp!(v, "u16/set/hash/set", u16, (), TreeMarker<ByteSetMarker, HashMapMarker<ByteSetMarker>>, clone);
    comp!(v, "u32/hash/hash", u32, String, TreeMarker<TreeMarker<ByteSetMarker, HashMapMarker<BoxMarker<ByteSetMarker>>>, HashMapMarker<BoxMarker<TreeMarker<ByteSetMarker, Rh>>>>, clone);
    comp!(v, "u16/bytecollection", u16, u32, TreeMarker<ByteSetMarker, ByteCollectionMarker<Vq, Marker8>>);
    comp!(v, "i16/bytecollection/ref", i16, String, TreeMarker<RefMarker, ByteCollectionMarker<Vq, RefMarker>>);
    comp!(v, "[u8;3]/bytecollection/ref", [u8; 3], u32, TreeMarker<ByteSetMarker, ByteCollectionMarker<Vq, TreeMarker<ByteSetMarker, ByteCollectionMarker<Vq, RefMarker>>>>);
    comp!(v, "u16/generic-array", u16, u32, TreeMarker<ByteSetMarker, ArrayTreeCollectionMarker<GenericArrayMarker<Marker8>>>);
    comp!(v, "U4/generic-array/ref", U4, u32, TreeMarker<RefMarker, ArrayTreeCollectionMarker<GenericArrayMarker<RefMarker>>>);
    comp!(v, "u8/box-array/ref", u8, String, TreeMarker<RefMarker, ArrayTreeCollectionMarker<BoxMarker<RefMarker>>>);
    comp!(v, "i8/generic-array/tree<U4>", i8, u32, TreeMarker<TreeMarker<RefMarker, Rh>, ArrayTreeCollectionMarker<GenericArrayMarker<TreeMarker<RefMarker, ArrayTreeCollectionMarker<GenericArrayMarker<RefMarker>>>>>>);
    comp!(v, "[i8;2]/box-array/ref", [i8; 2], u32, TreeMarker<RefMarker, ArrayTreeCollectionMarker<BoxMarker<RefMarker>>>);
    comp!(v, "[i8;2]/generic-array/ref", [i8; 2], u32, TreeMarker<RefMarker, ArrayTreeCollectionMarker<GenericArrayMarker<RefMarker>>>);
    comp!(v, "[i16;2]/box-array/ref", [i16; 2], u32, TreeMarker<RefMarker, ArrayTreeCollectionMarker<BoxMarker<RefMarker>>>, heavy);
    comp!(v, "[();2]/box-array/ref", [(); 2], u32, TreeMarker<RefMarker, ArrayTreeCollectionMarker<BoxMarker<RefMarker>>>);
    // wrappers
    comp!(v, "Sized/ref-u8", u8, u32, SizedMarker<RefMarker>, heavy false, clone None, len Some((slen, "P10")), exact Some("P10"), ilen Some(ilen), family &["P10"]);
    comp!(v, "Sized/ref-[u8;2]", [u8; 2], String, SizedMarker<RefMarker>, heavy false, clone None, len Some((slen, "P10")), exact Some("P10"), ilen Some(ilen), family &["P10"]);
    comp!(v, "Sized/Marker16", u16, u32, SizedMarker<Marker16>, heavy false, clone None, len Some((slen, "P10")), exact Some("P10"), ilen Some(ilen), family &[]);
    comp!(v, "Sized/ByteSet", u8, (), SizedMarker<ByteSetMarker>, heavy false, clone None, len Some((slen, "P10")), exact Some("P10"), ilen Some(ilen), family &[]);
    comp!(v, "Box/ref-u8", u8, u32, BoxMarker<RefMarker>, heavy false, clone Some(cloned), len None, exact None, ilen None, family &["P21"]);
    comp!(v, "Box/Sized/ref-u16", u16, String, BoxMarker<SizedMarker<RefMarker>>, heavy false, clone None, len None, exact Some("P21"), ilen None, family &["P21"]);
    comp!(v, "BTreeMap-u8", u8, u32, StdMapMarker, heavy false, clone Some(cloned), len None, exact Some("P21"), ilen None, family &["P21"]);
    comp!(v, "BTreeMap-i64", i64, String, StdMapMarker, heavy false, clone Some(cloned), len None, exact Some("P21"), ilen None, family &["P21"]);
    v
}
