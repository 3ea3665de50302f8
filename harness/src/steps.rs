//! Counts the calls of tree and collection operations one operation makes, on towers of trees and
//! collections which all count (the real `Tree`, collections and wrappers between counting layers).
//! The bound is linear in the height of the tower, that is O(log log K).
use crate::comps::SizedMarker;
use crate::hist::*;
use crate::reftree::RefMarker;
use crate::rng::*;
use std::borrow::Borrow;
use std::cell::Cell;
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::*;
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef, U2};
use veb_tree::markers::*;
use veb_tree::tree::*;
use veb_tree::{MaybeRemoveResult, RemoveResult, TreeKV, VebTree};

thread_local! { static CALLS: Cell<u64> = const { Cell::new(0) }; }
const LIMIT: u64 = 50_000;
#[inline]
fn tick() {
    let n = CALLS.get() + 1;
    CALLS.set(n);
    if n > LIMIT { panic!("too many steps") }
}

pub struct Cnt<T>(T);
pub struct CntM<M>(PhantomData<M>);
impl<K, V, M: VebTreeMarker<K, V>> VebTreeMarker<K, V> for CntM<M> {
    type Tree = Cnt<M::Tree>;
}
type KV<'a, T> = (MaybeBorrowed<'a, <T as VebTree>::Key>, &'a <T as VebTree>::Value);
type KVM<'a, T> = (MaybeBorrowed<'a, <T as VebTree>::Key>, &'a mut <T as VebTree>::Value);
fn w<T: VebTree>(r: RemoveResult<T>) -> RemoveResult<Cnt<T>> { (r.0.map(Cnt), r.1) }
impl<T: VebTree> VebTree for Cnt<T> {
    type Key = T::Key;
    type Value = T::Value;
    fn from_monad(key: T::Key, val: T::Value) -> Self { tick(); Cnt(T::from_monad(key, val)) }
    fn is_monad(&self) -> bool { tick(); self.0.is_monad() }
    fn len_hint(&self) -> (usize, Option<usize>) { tick(); self.0.len_hint() }
    fn into_monad(self) -> Result<TreeKV<Self>, Self> { tick(); self.0.into_monad().map_err(Cnt) }
    fn min_val(&self) -> KV<'_, T> { tick(); self.0.min_val() }
    fn min_val_mut(&mut self) -> KVM<'_, T> { tick(); self.0.min_val_mut() }
    fn max_val(&self) -> KV<'_, T> { tick(); self.0.max_val() }
    fn max_val_mut(&mut self) -> KVM<'_, T> { tick(); self.0.max_val_mut() }
    fn find<Q: Borrow<T::Key>>(&self, k: Q) -> Option<KV<'_, T>> { tick(); self.0.find(k.borrow()) }
    fn find_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<KVM<'_, T>> { tick(); self.0.find_mut(k.borrow()) }
    fn predecessor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<KV<'_, T>> { tick(); self.0.predecessor(k.borrow()) }
    fn predecessor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<KVM<'_, T>> { tick(); self.0.predecessor_mut(k.borrow()) }
    fn successor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<KV<'_, T>> { tick(); self.0.successor(k.borrow()) }
    fn successor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<KVM<'_, T>> { tick(); self.0.successor_mut(k.borrow()) }
    fn insert(&mut self, k: T::Key, v: T::Value) -> Option<TreeKV<Self>> { tick(); self.0.insert(k, v) }
    fn remove<Q: Borrow<T::Key>>(self, k: Q) -> MaybeRemoveResult<Self> { tick(); self.0.remove(k.borrow()).map(w).map_err(Cnt) }
    fn remove_min(self) -> RemoveResult<Self> { tick(); w(self.0.remove_min()) }
    fn remove_max(self) -> RemoveResult<Self> { tick(); w(self.0.remove_max()) }
}

pub struct CntC<C>(C);
pub struct CntCM<M>(PhantomData<M>);
impl<K: VebKey, V, M: VebTreeCollectionMarker<K, V>> VebTreeCollectionMarker<K, V> for CntCM<M> {
    type TreeCollection = CntC<<M::TreeCollection as SuperTreeCollection<K, V>>::TC>;
}
impl<C: TreeCollection> TreeCollection for CntC<C> {
    type Hi = C::Hi;
    type Tree = C::Tree;
    fn create(h: &C::Hi, tree: C::Tree) -> Self { tick(); CntC(C::create(h, tree)) }
    fn get(&self, h: &C::Hi) -> Option<&C::Tree> { tick(); self.0.get(h) }
    fn get_mut(&mut self, h: &C::Hi) -> Option<&mut C::Tree> { tick(); self.0.get_mut(h) }
    fn insert_key(&mut self, h: C::Hi, lv: CollectionKV<Self>) -> TreeInsertResult<Self> { tick(); self.0.insert_key(h, lv) }
    fn remove_key<Q: Borrow<C::Hi>, R: FnOnce(C::Tree) -> RemoveResult<C::Tree>>(self, h: Q, r: R) -> TreeRemoveResult<Self> {
        tick();
        let (c, v) = self.0.remove_key(h.borrow(), r);
        (c.map(|(c, b)| (CntC(c), b)), v)
    }
    fn maybe_remove_key<Q: Borrow<C::Hi>, R: FnOnce(C::Tree) -> MaybeRemoveResult<C::Tree>>(self, h: Q, r: R) -> TreeMaybeRemoveResult<Self> {
        tick();
        match self.0.maybe_remove_key(h.borrow(), r) {
            Ok((c, v)) => Ok((c.map(|(c, b)| (CntC(c), b)), v)),
            Err(c) => Err(CntC(c)),
        }
    }
}

pub struct CntA<A>(A);
impl<C, A: OptionArray<C>> OptionArray<C> for CntA<A> {
    type V = A::V;
    fn create() -> Self { tick(); CntA(A::create()) }
    fn get(&self, i: usize) -> &Option<A::V> { tick(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut Option<A::V> { tick(); self.0.get_mut(i) }
}

pub struct CntL<L>(L);
pub struct ListM;
impl<T: VebTree> TreeListMarker<T> for ListM { type List = CntL<<VecDequeMarker as TreeListMarker<T>>::List>; }
impl<V> ListMarker<V> for ListM { type List = CntL<<VecDequeMarker as ListMarker<V>>::List>; }
impl<L: TreeList> TreeList for CntL<L> {
    type Tree = L::Tree;
    fn from_monad(v: L::Tree) -> Self { tick(); CntL(L::from_monad(v)) }
    fn len(&self) -> NonZeroUsize { tick(); self.0.len() }
    fn get(&self, i: usize) -> &L::Tree { tick(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut L::Tree { tick(); self.0.get_mut(i) }
    fn insert_tree(&mut self, i: usize, v: L::Tree) { tick(); self.0.insert_tree(i, v) }
    fn remove_key<F: FnOnce(L::Tree) -> RemoveResult<L::Tree>>(self, i: usize, f: F) -> (Option<(Self, bool)>, TreeKV<L::Tree>) {
        tick();
        let (l, v) = self.0.remove_key(i, f);
        (l.map(|(l, b)| (CntL(l), b)), v)
    }
    fn maybe_remove_key<F: FnOnce(L::Tree) -> MaybeRemoveResult<L::Tree>>(self, i: usize, f: F) -> Result<(Option<(Self, bool)>, TreeKV<L::Tree>), Self> {
        tick();
        match self.0.maybe_remove_key(i, f) {
            Ok((l, v)) => Ok((l.map(|(l, b)| (CntL(l), b)), v)),
            Err(l) => Err(CntL(l)),
        }
    }
}
impl<L: List> List for CntL<L> {
    type Value = L::Value;
    fn from_monad(v: L::Value) -> Self { tick(); CntL(L::from_monad(v)) }
    fn len(&self) -> usize { tick(); self.0.len() }
    fn is_empty(&self) -> bool { tick(); self.0.is_empty() }
    fn get(&self, i: usize) -> &L::Value { tick(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut L::Value { tick(); self.0.get_mut(i) }
    fn insert_value(&mut self, i: usize, v: L::Value) { tick(); self.0.insert_value(i, v) }
    fn remove_value(self, i: usize) -> (Option<Self>, L::Value) {
        tick();
        let (l, v) = self.0.remove_value(i);
        (l.map(CntL), v)
    }
}

/// The same hashes on every run.
type Fixed = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

/// A boxed collection.
pub struct BoxCM<M>(PhantomData<M>);
impl<K: VebKey, V, M: VebTreeCollectionMarker<K, V>> VebTreeCollectionMarker<K, V> for BoxCM<M> {
    type TreeCollection = Box<<M::TreeCollection as SuperTreeCollection<K, V>>::TC>;
}

/// An array of trees of any lower part of a key.
pub struct ArrM<M>(PhantomData<M>);
impl<L: Ord + Clone, V, M: VebTreeMarker<L, V>> VebTreeCollectionMarker<P<u8, L>, V> for ArrM<M> {
    type TreeCollection = ArrayTreeCollection<u8, CntA<Box<[Option<M::Tree>]>>>;
}

/// A key in two parts, of any heights.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct P<H, L>(H, L);
impl<H: Ord + Clone, L: Ord + Clone> VebKey for P<H, L> {
    type Hi = H;
    type Lo = L;
    fn split_val(self) -> (H, L) { (self.0, self.1) }
    fn join<'a>(hi: MaybeBorrowed<'a, H>, lo: MaybeBorrowed<'a, L>) -> Self { P(hi.into_or_clone(), lo.into_or_clone()) }
}
impl<H: Ord + Clone, L: Ord + Clone> VebKeyRef<H, L> for P<H, L> {
    fn split_ref<F: FnOnce(&H, &L) -> R, R>(&self, f: F) -> R { f(&self.0, &self.1) }
}
impl<H: HKey, L: HKey> HKey for P<H, L> {
    const BITS: u32 = H::BITS + L::BITS;
    fn from_raw(r: u128) -> Self { P(H::from_raw(r >> L::BITS), L::from_raw(r & ((1u128 << L::BITS) - 1))) }
}

/// A key in two halves of one kind, made from four bits for each level: the keys so made crowd, at every
/// level, both the summary and the subtree of one and the same half (the centre).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct W2<H>(H, H);
impl<H: Ord + Clone> VebKey for W2<H> {
    type Hi = H;
    type Lo = H;
    fn split_val(self) -> (H, H) { (self.0, self.1) }
    fn join<'a>(hi: MaybeBorrowed<'a, H>, lo: MaybeBorrowed<'a, H>) -> Self { W2(hi.into_or_clone(), lo.into_or_clone()) }
}
impl<H: Ord + Clone> VebKeyRef<H, H> for W2<H> {
    fn split_ref<F: FnOnce(&H, &H) -> R, R>(&self, f: F) -> R { f(&self.0, &self.1) }
}
fn levels(bits: u32, nibble: u128, digit: u128) -> u128 { (0..(bits - 2) / 4).fold(digit, |a, i| a | nibble << (2 + 4 * i)) }
impl<H: HKey + Clone> HKey for W2<H> {
    const BITS: u32 = H::BITS + 4;
    fn from_raw(r: u128) -> Self {
        let k = H::from_raw(r & ((1u128 << H::BITS) - 1));
        let c = r >> H::BITS;
        let centre = H::from_raw(levels(H::BITS, 1, 1));
        if c & 1 == 1 { return W2(centre, k); }
        let fill = match c >> 1 & 3 { 0 => H::from_raw(0), 1 => H::from_raw(levels(H::BITS, 2, 3)), 2 => centre, _ => H::from_raw(levels(H::BITS, 1, 2)) };
        W2(k, fill)
    }
}

/// A byte whose comparisons for equality count, to see scans through what a collection is made of.
#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
pub struct D(u8);
impl PartialEq for D { fn eq(&self, o: &D) -> bool { tick(); self.0 == o.0 } }
impl HKey for D {
    const BITS: u32 = 8;
    fn from_raw(r: u128) -> Self { D(r as u8) }
}

/// What one operation may take at most, from the height of the tower.
#[derive(Clone, Copy)]
enum Class { Const, Descend }

pub struct Tower {
    pub name: &'static str,
    pub bits: u32,
    pub unit: u32,
    height: u64,
    go: fn(&[Op]) -> Vec<(usize, bool, u64)>,
}
impl Tower {
    fn bound(&self, c: Class) -> u64 {
        match c { Class::Const => 12, Class::Descend => 9 * (2 + self.height) }
    }
}

fn class(o: &Op) -> Class {
    match o {
        Op::MinMax | Op::MinMut(_) | Op::MaxMut(_) | Op::Shape | Op::IntoMonad => Class::Const,
        _ => Class::Descend,
    }
}

fn meter<T: VebTree<Value = u32>>(ops: &[Op]) -> Vec<(usize, bool, u64)>
where T::Key: HKey {
    let mut t: Option<T> = None;
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        let key = |k: u128| T::Key::from_raw(k);
        CALLS.set(0);
        let cur = t.take();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let Some(mut m) = cur else {
                return match *op { Op::Ins(k, v) => Some(T::from_monad(key(k), v)), _ => None };
            };
            match *op {
                Op::Ins(k, v) => { m.insert(key(k), v); }
                Op::Find(k) => { m.find(key(k)); }
                Op::Pred(k) => { m.predecessor(key(k)); }
                Op::Succ(k) => { m.successor(key(k)); }
                Op::FindMut(k, v) => { if let Some(x) = m.find_mut(key(k)) { *x.1 = v } }
                Op::PredMut(k, v) => { if let Some(x) = m.predecessor_mut(key(k)) { *x.1 = v } }
                Op::SuccMut(k, v) => { if let Some(x) = m.successor_mut(key(k)) { *x.1 = v } }
                Op::MinMax => { m.min_val(); m.max_val(); }
                Op::MinMut(v) => { *m.min_val_mut().1 = v; }
                Op::MaxMut(v) => { *m.max_val_mut().1 = v; }
                Op::Shape => { m.is_monad(); m.len_hint(); }
                Op::IntoMonad => return match m.into_monad() { Ok((k, v)) => { let n = CALLS.get(); let t = T::from_monad(k, v); CALLS.set(n); Some(t) } Err(m) => Some(m) },
                Op::Rem(k) => return match m.remove(key(k)) { Ok((m, _)) => m, Err(m) => Some(m) },
                Op::RMin => return m.remove_min().0,
                Op::RMax => return m.remove_max().0,
                Op::CloneT(..) | Op::Iter(_) => {}
            }
            Some(m)
        }));
        let n = CALLS.get();
        match r {
            Ok(x) => { t = x; out.push((i, true, n)); }
            // any other panic is not about steps
            Err(_) => { if n > LIMIT { out.push((i, false, n)); } return out; }
        }
    }
    out
}

macro_rules! tower {
    ($v:ident, $name:expr, $k:ty, $m:ty, height $h:expr, unit $u:expr) => {{
        fn go(ops: &[Op]) -> Vec<(usize, bool, u64)> { meter::<<$m as VebTreeMarker<$k, u32>>::Tree>(ops) }
        $v.push(Tower { name: $name, bits: <$k as HKey>::BITS, unit: $u, height: $h, go });
    }};
}

// the children go deep
type L2 = P<u8, u8>;
type L3 = P<u8, L2>;
type L4 = P<u8, L3>;
type L5 = P<u8, L4>;
type L6 = P<u8, L5>;
type L7 = P<u8, L6>;
type L8 = P<u8, L7>;
type L9 = P<u8, L8>;
type L10 = P<u8, L9>;
type L11 = P<u8, L10>;
type L12 = P<u8, L11>;
type L13 = P<u8, L12>;
type L14 = P<u8, L13>;
type L15 = P<u8, L14>;
type L16 = P<u8, L15>;
type Sum = CntM<ByteSetMarker>;
type H<C> = CntM<TreeMarker<Sum, CntCM<HashMapMarker<C, Fixed>>>>;
type B<C> = CntM<TreeMarker<Sum, CntCM<ByteCollectionMarker<ListM, C>>>>;
type A<C> = CntM<TreeMarker<Sum, CntCM<ArrM<C>>>>;
type S<C> = CntM<SizedMarker<C>>;
type X<C> = CntM<BoxMarker<C>>;
type Leaf = CntM<ByteTreeMarker<ListM>>;
type HB<C> = CntM<TreeMarker<Sum, CntCM<BoxCM<CntCM<HashMapMarker<C, Fixed>>>>>>;
type D4H = H<H<H<Leaf>>>;
type D10H = H<H<H<H<H<H<D4H>>>>>>;
type D16H = H<H<H<H<H<H<D10H>>>>>>;
type D4B = B<B<B<Leaf>>>;
type D10B = B<B<B<B<B<B<D4B>>>>>>;
type D16B = B<B<B<B<B<B<D10B>>>>>>;
type D6A = A<A<A<A<A<Leaf>>>>>;
type W<C> = S<HB<X<B<C>>>>;
type D16S = W<W<W<W<W<W<W<H<Leaf>>>>>>>>;
// the summaries go deep
type G2 = P<u8, u8>;
type G3 = P<G2, u8>;
type G4 = P<G3, u8>;
type G5 = P<G4, u8>;
type G6 = P<G5, u8>;
type G7 = P<G6, u8>;
type G8 = P<G7, u8>;
type G9 = P<G8, u8>;
type G10 = P<G9, u8>;
type G11 = P<G10, u8>;
type G12 = P<G11, u8>;
type HS<S> = CntM<TreeMarker<S, CntCM<HashMapMarker<Leaf, Fixed>>>>;
type HS0<S> = CntM<TreeMarker<S, CntCM<HashMapMarker<Sum, Fixed>>>>;
type T5 = HS0<HS0<HS0<HS0<Sum>>>>;
type T11 = HS0<HS0<HS0<HS0<HS0<HS0<T5>>>>>>;
type T12 = HS<T11>;
type Y0<S> = CntM<SizedMarker<CntM<TreeMarker<S, CntCM<HashMapMarker<CntM<BoxMarker<Sum>>, Fixed>>>>>>;
type Y11 = Y0<Y0<Y0<Y0<Y0<Y0<Y0<Y0<Y0<Y0<Sum>>>>>>>>>>;
type Y12 = HS<Y11>;
// both
type N1 = P<U2, U2>;
type N2 = P<N1, N1>;
type N3 = P<N2, N2>;
type N4 = P<N3, N3>;
type N5 = P<N4, N4>;
type N6 = P<N5, N5>;
type V3 = W2<W2<W2<U2>>>;
type V8 = W2<W2<W2<W2<W2<V3>>>>>;
type V11 = W2<W2<W2<V8>>>;
type Q<S, C> = CntM<TreeMarker<S, CntCM<HashMapMarker<C, Fixed>>>>;
type R0 = CntM<RefMarker>;
type R1 = Q<R0, R0>;
type R2 = Q<R1, R1>;
type R3 = Q<R2, R2>;
type R4 = Q<R3, R3>;
type R5 = Q<R4, R4>;
type R6 = Q<R5, R5>;
type R7 = Q<R6, R6>;
type R8 = Q<R7, R7>;
type R9 = Q<R8, R8>;
type R10 = Q<R9, R9>;
type R11 = Q<R10, R10>;

pub fn towers() -> Vec<Tower> {
    let mut v: Vec<Tower> = vec![];
    tower!(v, "lo-deep/hash", L16, D16H, height 15, unit 8);
    tower!(v, "lo-deep/bytecollection", L16, D16B, height 15, unit 8);
    tower!(v, "lo-deep/array", L6, D6A, height 5, unit 8);
    tower!(v, "lo-deep/wrapped", L16, D16S, height 30, unit 8);
    tower!(v, "hi-deep/hash", G12, T12, height 11, unit 8);
    tower!(v, "hi-deep/wrapped", G12, Y12, height 22, unit 8);
    tower!(v, "both/hash", N6, R6, height 6, unit 2);
    tower!(v, "centre/hash", V11, R11, height 11, unit 2);
    tower!(v, "flat/hash", P<D, D>, TreeMarker<RefMarker, HashMapMarker<RefMarker, Fixed>>, height 1, unit 8);
    v
}

/// Keys which agree in long runs of digits with others of the pool, so that descents go deep.
fn history(r: &mut Rng, t: &Tower) -> Vec<Op> {
    let mask: u128 = if t.bits >= 128 { u128::MAX } else { (1u128 << t.bits) - 1 };
    if t.name.starts_with("both") && r.below(4) != 0 { return crowd(r, t); }
    if t.name.starts_with("centre") && r.below(4) != 0 { return bushy(r, t); }
    let digits = t.bits / t.unit;
    let dm = (1u128 << t.unit) - 1;
    let base = if r.below(3) == 0 { r.u128() & mask } else { (0..digits).fold(0u128, |a, _| a << t.unit | (1 + r.below(2) as u128)) };
    let mut pool = vec![base];
    let most = if r.below(3) == 0 { 60 } else { 24 };
    let n = 3 + r.below(most);
    for _ in 0..4 * n {
        if pool.len() >= n { break; }
        let b = if r.below(2) == 0 { base } else { pool[r.below(pool.len())] };
        let at = r.below(digits as usize) as u32 * t.unit;
        let d = (b >> at) & dm;
        let d2 = match r.below(4) { 0 | 1 => d.wrapping_add(1) & dm, 2 => d.wrapping_sub(1) & dm, _ => r.u128() & dm };
        let mut x = (b & !(dm << at)) | d2 << at;
        match r.below(6) { 0 => x &= !((1u128 << at) - 1), 1 => x |= (1u128 << at) - 1, _ => {} }
        x &= mask;
        if !pool.contains(&x) { pool.push(x); }
    }
    // one crowded level
    if t.unit == 8 && r.below(8) == 0 {
        let b = pool[r.below(pool.len())];
        let at = r.below(digits as usize) as u32 * t.unit;
        for d in 0..=dm { let x = (b & !(dm << at)) | d << at; if !pool.contains(&x) { pool.push(x); } }
    }
    let k = |r: &mut Rng| { let x = pool[r.below(pool.len())]; match r.below(6) { 0 => x.wrapping_add(1) & mask, 1 => x.wrapping_sub(1) & mask, _ => x } };
    let mut ops = vec![];
    for x in &pool { ops.push(Op::Ins(*x, 0)); }
    for i in (1..ops.len()).rev() { let j = r.below(i + 1); ops.swap(i, j); }
    for x in &pool {
        ops.extend([Op::Find(*x), Op::Pred(*x), Op::Succ(*x)]);
        if r.below(3) == 0 { ops.extend([Op::FindMut(*x, 1), Op::PredMut(*x, 1), Op::SuccMut(*x, 1)]); }
    }
    ops.extend([Op::MinMax, Op::MinMut(1), Op::MaxMut(1), Op::Shape, Op::IntoMonad]);
    for i in 0..3 * pool.len() {
        let x = k(r);
        ops.push(match r.below(14) {
            0..=2 => Op::Rem(x), 3 => Op::RMin, 4 => Op::RMax, 5..=7 => Op::Ins(x, 2),
            8 => Op::Find(x), 9 => Op::Pred(x), 10 => Op::Succ(x), 11 => Op::PredMut(x, 3), 12 => Op::SuccMut(x, 3),
            13 if i % 2 == 0 => Op::MinMax, _ => Op::Shape,
        });
    }
    for x in &pool { ops.push(match r.below(4) { 0 => Op::RMin, 1 => Op::RMax, _ => Op::Rem(*x) }); }
    ops.extend([Op::MinMax, Op::Shape, Op::IntoMonad]);
    ops
}

/// Many keys which differ from one key in few digits, so that summaries and children are crowded at every level.
fn crowd(r: &mut Rng, t: &Tower) -> Vec<Op> {
    let mask: u128 = if t.bits >= 128 { u128::MAX } else { (1u128 << t.bits) - 1 };
    let digits = t.bits / t.unit;
    let dm = (1u128 << t.unit) - 1;
    let base = (0..digits).fold(0u128, |a, _| a << t.unit | (1 + r.below(2) as u128));
    let one_in = [5, 8, 12, 20, 32][r.below(5)];
    let mut key = |r: &mut Rng| {
        let mut x = base;
        for i in 0..digits { if r.below(one_in) == 0 { let at = i * t.unit; x = (x & !(dm << at)) | (r.u128() & dm) << at; } }
        x & mask
    };
    let n = [100, 400, 1000, 2000][r.below(4)];
    let pool: Vec<u128> = (0..n).map(|_| key(r)).collect();
    let mut ops: Vec<Op> = pool.iter().map(|x| Op::Ins(*x, 0)).collect();
    for _ in 0..n {
        let x = if r.below(2) == 0 { key(r) } else { pool[r.below(n)] };
        ops.push(match r.below(16) {
            0 | 1 => Op::Find(x), 2..=4 => Op::Pred(x), 5..=7 => Op::Succ(x), 8 => Op::PredMut(x, 3), 9 => Op::SuccMut(x, 3),
            10 => Op::FindMut(x, 3), 11 | 12 => Op::Ins(x, 2), 13 => Op::Rem(x), 14 => Op::RMin, _ => Op::RMax,
        });
    }
    for x in &pool { ops.push(match r.below(8) { 0 => Op::RMin, 1 => Op::RMax, 2 => Op::Pred(*x), 3 => Op::Succ(*x), _ => Op::Rem(*x) }); }
    ops
}

/// All the keys which crowd the summary and the subtree of the centre at every level, and what is next to it.
fn bushy(r: &mut Rng, t: &Tower) -> Vec<Op> {
    let h = (t.bits - 2) / 4;
    let mut keys: Vec<u128> = (0..4).collect();
    for i in 0..h {
        let at = 2 + 4 * i;
        let mut next: Vec<u128> = keys.iter().map(|k| k | (2 * r.below(4) as u128) << at).collect();
        next.extend(keys.iter().map(|k| k | 1 << at));
        keys = next;
    }
    let centre = levels(t.bits, 1, 1);
    // some are new only later
    let near = r.below(2) == 0;
    let later: Vec<u128> = keys.iter().copied().filter(|x| (if near { x >> 2 == centre >> 2 } else { true }) && r.below(if near { 2 } else { 8 }) == 0).collect();
    let mut first: Vec<u128> = keys.iter().copied().filter(|x| !later.contains(x)).collect();
    for i in (1..first.len()).rev() { let j = r.below(i + 1); first.swap(i, j); }
    let mut ops: Vec<Op> = first.iter().map(|x| Op::Ins(*x, 0)).collect();
    let ask = |ops: &mut Vec<Op>, x: u128| ops.extend([Op::Find(x), Op::Pred(x), Op::Succ(x), Op::FindMut(x, 1), Op::PredMut(x, 1), Op::SuccMut(x, 1)]);
    for x in &later { ask(&mut ops, *x); ops.push(Op::Ins(*x, 2)); }
    for d in 0..4 { ask(&mut ops, (centre & !3) | d); }
    for _ in 0..64 { let x = keys[r.below(keys.len())]; ask(&mut ops, x ^ r.below(2) as u128); }
    // removals of single keys, from the centre or to it, or from the ends
    let mut rest = keys;
    rest.sort_by_key(|x| x ^ centre);
    match r.below(3) {
        0 => for x in &rest { ops.push(Op::Rem(*x)); },
        1 => for x in rest.iter().rev() { ops.push(Op::Rem(*x)); },
        _ => for _ in &rest { ops.push(match r.below(2) { 0 => Op::RMin, _ => Op::RMax }); },
    }
    ops
}

fn first_bad(t: &Tower, ops: &[Op]) -> Option<(usize, String)> {
    for (i, done, n) in (t.go)(ops) {
        let b = t.bound(class(&ops[i]));
        if !done || n > b {
            return Some((i, format!("{} of {} levels: `{}` takes {}{} calls of tree and collection operations; at most {} are expected", t.name, t.height, ops[i].text(), if done { "" } else { "more than " }, n.min(LIMIT), b)));
        }
    }
    None
}

#[derive(Default)]
pub struct Stat { pub histories: u64, pub steps: u64, pub most: Vec<(String, u64, u64)> }

pub fn run(seed: u64, secs: f64) -> (Stat, Option<(String, Vec<String>, String)>) {
    use std::sync::atomic::{AtomicBool, Ordering};
    let ts = towers();
    let n = ts.len();
    let stop = AtomicBool::new(false);
    let res: Vec<(u64, u64, u64, u64, Option<(usize, Vec<Op>)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = ts.iter().enumerate().map(|(ti, t)| {
            let stop = &stop;
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let t0 = std::time::Instant::now();
                let mut r = Rng(seed.wrapping_mul(0x51ed27).wrapping_add(ti as u64));
                let (mut h, mut st, mut mc, mut md) = (0, 0, 0, 0);
                while t0.elapsed().as_secs_f64() < secs && !stop.load(Ordering::Relaxed) {
                    let ops = history(&mut r, t);
                    h += 1;
                    let o = (t.go)(&ops);
                    st += o.len() as u64;
                    let mut bad = false;
                    for (i, done, c) in o {
                        let cl = class(&ops[i]);
                        match cl { Class::Const => mc = c.max(mc), Class::Descend => md = c.max(md) }
                        bad |= !done || c > t.bound(cl);
                    }
                    if bad { stop.store(true, Ordering::Relaxed); return (h, st, mc, md, Some((ti, ops))); }
                }
                (h, st, mc, md, None)
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut stat = Stat::default();
    let mut found = None;
    for (i, (h, s, mc, md, f)) in res.into_iter().enumerate() {
        stat.histories += h;
        stat.steps += s;
        stat.most.push((ts[i % n].name.to_string(), mc, md));
        if let (None, Some((ti, ops))) = (&found, f) {
            let t = &ts[ti];
            let mut cur = ops;
            if let Some((i, _)) = first_bad(t, &cur) { cur.truncate(i + 1); }
            let t0 = std::time::Instant::now();
            let mut step = cur.len() / 2;
            while step > 0 && t0.elapsed().as_secs() < 6 {
                let (mut i, mut any) = (0, false);
                while i < cur.len() && t0.elapsed().as_secs() < 6 {
                    let mut c = cur.clone();
                    c.drain(i..(i + step).min(cur.len()));
                    if let Some((j, _)) = first_bad(t, &c) { c.truncate(j + 1); cur = c; any = true; } else { i += step; }
                }
                if !any || step > 1 { step /= 2; }
            }
            let msg = first_bad(t, &cur).map(|x| x.1).unwrap_or_default();
            found = Some((t.name.to_string(), cur.iter().map(|o| o.text()).collect(), msg));
        }
    }
    (stat, found)
}

pub fn replay(name: &str, ops: &[Op]) -> Option<String> {
    towers().iter().find(|t| t.name == name).and_then(|t| first_bad(t, ops)).map(|x| x.1)
}
