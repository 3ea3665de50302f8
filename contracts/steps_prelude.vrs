#![allow(unused_imports, dead_code, unused_variables)]
#![feature(allocator_api)]
#![recursion_limit = "256"]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::*;
use core::mem::{replace, swap, take};
use core::marker::PhantomData;

verus! {
// ---- how many steps the operations take (P24).
// A step is one call of an operation of a tree, of a collection or of a list. Each operation counted
// hands back, next to its result, the ghost number of steps it took (E22); the bodies are those of
// the code. The contracts here say nothing of what the operations compute, except which results go
// with few steps; what they compute, and that they do not panic, is proved in the other units.
//@steps from_monad is_monad len_hint into_monad min_val min_val_mut max_val max_val_mut find find_mut predecessor predecessor_mut successor successor_mut insert remove remove_min remove_max
//@steps create get get_mut insert_key remove_key maybe_remove_key
//@steps insert_tree insert_value remove_value
//@include order.vrs
//@include borrow.vrs
//@include arrays.vrs
//@include maybe_borrowed.vrs
pub type TreeKV<VT> = (<VT as VebTree>::Key, <VT as VebTree>::Value);
pub type RemoveResult<VT> = (Option<VT>, TreeKV<VT>);
pub type MaybeRemoveResult<VT> = Result<RemoveResult<VT>, VT>;
pub type Steps<R> = (R, Ghost<nat>);

pub fn one_step_() -> (r: Ghost<nat>) ensures r@ == 1 { Ghost(1) }
pub fn no_steps_() -> (r: Ghost<nat>) ensures r@ == 0 { Ghost(0) }
/// what a counted call hands back; the accessors of numbers that share a counted name take no steps
pub trait Counted: Sized {
    type R;
    spec fn res(self) -> Self::R;
    spec fn took(self) -> nat;
    fn split_(self) -> (r: (Self::R, Ghost<nat>)) ensures r.0 == self.res(), r.1@ == self.took();
}
impl<R> Counted for (R, Ghost<nat>) { type R = R; open spec fn res(self) -> R { self.0 } open spec fn took(self) -> nat { self.1@ } fn split_(self) -> (R, Ghost<nat>) { self } }
impl Counted for usize { type R = usize; open spec fn res(self) -> usize { self } open spec fn took(self) -> nat { 0 } fn split_(self) -> (usize, Ghost<nat>) { (self, Ghost(0)) } }
pub fn count_<P: Counted>(p: P, steps: &mut Ghost<nat>) -> (r: P::R) ensures r == p.res(), final(steps)@ == old(steps)@ + p.took() { let q = p.split_(); *steps = Ghost(steps@ + q.1@); q.0 }
// operations that may panic: whether they do is not the matter of this unit
pub trait Must { type T; spec fn is(self, t: Self::T) -> bool; fn must_(self) -> (r: Self::T) ensures self.is(r); }
impl<T> Must for Option<T> { type T = T; open spec fn is(self, t: T) -> bool { self == Some(t) } #[verifier::external_body] fn must_(self) -> T { unimplemented!() } }
impl<T, E> Must for Result<T, E> { type T = T; open spec fn is(self, t: T) -> bool { self == Ok::<T, E>(t) } #[verifier::external_body] fn must_(self) -> T { unimplemented!() } }
#[verifier::external_body]
pub fn arith_<A, B>(a: A, b: B) -> A { unimplemented!() }
#[verifier::external_body]
pub fn arith_assign_<A, B>(a: &mut A, b: B) { unimplemented!() }
/// whether debug assertions are compiled in: unknown, so that code which needs them, or their absence, fails
pub uninterp spec fn debug_build() -> bool;
#[verifier::external_body]
pub fn debug_build_() -> (r: bool) ensures r == debug_build() { unimplemented!() }
pub fn rt_assert(b: bool) { }
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) ensures false { unimplemented!() }
pub trait PlainDefault: Sized { fn default_() -> Self; }
impl<T> PlainDefault for Option<T> { fn default_() -> (r: Self) { None } }
impl PlainDefault for u8 { fn default_() -> Self { 0 } } impl PlainDefault for u16 { fn default_() -> Self { 0 } } impl PlainDefault for u32 { fn default_() -> Self { 0 } } impl PlainDefault for u64 { fn default_() -> Self { 0 } }
impl PlainDefault for u128 { fn default_() -> Self { 0 } } impl PlainDefault for usize { fn default_() -> Self { 0 } } impl PlainDefault for bool { fn default_() -> Self { false } } impl PlainDefault for () { fn default_() -> Self { () } }
pub fn default_value<T: PlainDefault>() -> T { T::default_() }
/// one level's own work
pub open spec fn level_steps(c: nat, s: nat, t: nat) -> nat { 16384 + 16 * c + 4096 * s + 4096 * t }
pub open spec fn max2(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
/// the steps of a removal handed to a collection: a few of constant time, and one descent if the tree is not used up
pub open spec fn remove_end_cost<T: VebTree>(r: Steps<RemoveResult<T>>) -> bool { r.1@ <= 2048 * T::unit() + if r.0.0 is Some { T::slow() } else { 0 } }
pub open spec fn remove_cost<T: VebTree>(r: Steps<MaybeRemoveResult<T>>) -> bool { r.1@ <= 2048 * T::unit() + if (r.0 matches Ok(o) && o.0 is None) { 0 } else { T::slow() } }
pub trait VebTree: Sized {
    type Key: Ord;
    type Value;
    /// the steps of the least of the operations that take constant time (the others take a fixed multiple)
    spec fn unit() -> nat;
    /// bound on the steps of the operations that may descend
    spec fn slow() -> nat;
    proof fn lemma_steps() ensures 1 <= Self::unit(), 1024 * Self::unit() <= Self::slow();
    fn from_monad(key: Self::Key, val: Self::Value) -> (r: (Self, Ghost<nat>))
        ensures r.1@ <= Self::unit();
    fn is_monad(&self) -> (r: (bool, Ghost<nat>))
        ensures r.1@ <= Self::unit();
    fn len_hint(&self) -> (r: ((usize, Option<usize>), Ghost<nat>))
        ensures r.1@ <= 16 * Self::unit();
    fn into_monad(self) -> (r: (Result<TreeKV<Self>, Self>, Ghost<nat>))
        ensures r.1@ <= 16 * Self::unit();
    fn min_val(&self) -> (r: ((MaybeBorrowed<'_, Self::Key>, &Self::Value), Ghost<nat>))
        ensures r.1@ <= 4 * Self::unit();
    fn min_val_mut(&mut self) -> (r: ((MaybeBorrowed<'_, Self::Key>, &mut Self::Value), Ghost<nat>))
        ensures r.1@ <= 4 * Self::unit();
    fn max_val(&self) -> (r: ((MaybeBorrowed<'_, Self::Key>, &Self::Value), Ghost<nat>))
        ensures r.1@ <= 4 * Self::unit();
    fn max_val_mut(&mut self) -> (r: ((MaybeBorrowed<'_, Self::Key>, &mut Self::Value), Ghost<nat>))
        ensures r.1@ <= 4 * Self::unit();
    fn insert(&mut self, k: Self::Key, v: Self::Value) -> (r: (Option<TreeKV<Self>>, Ghost<nat>))
        ensures r.1@ <= Self::slow();
    fn find<Q>(&self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= Self::slow();
    fn find_mut<Q>(&mut self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= Self::slow();
    fn predecessor<Q>(&self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= if r.0 is Some { Self::slow() } else { 16 * Self::unit() };
    fn predecessor_mut<Q>(&mut self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= if r.0 is Some { Self::slow() } else { 16 * Self::unit() };
    fn successor<Q>(&self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= if r.0 is Some { Self::slow() } else { 16 * Self::unit() };
    fn successor_mut<Q>(&mut self, k: Q) -> (r: (Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= if r.0 is Some { Self::slow() } else { 16 * Self::unit() };
    fn remove<Q>(self, k: Q) -> (r: (MaybeRemoveResult<Self>, Ghost<nat>))
    where
        Q: Borrow<Self::Key>
        ensures r.1@ <= 1024 * Self::unit() + if (r.0 matches Ok(o) && o.0 is None) { 0 } else { Self::slow() };
    fn remove_min(self) -> (r: (RemoveResult<Self>, Ghost<nat>))
        ensures r.1@ <= 512 * Self::unit() + if r.0.0 is None { 0 } else { Self::slow() };
    fn remove_max(self) -> (r: (RemoveResult<Self>, Ghost<nat>))
        ensures r.1@ <= 512 * Self::unit() + if r.0.0 is None { 0 } else { Self::slow() };
}
pub trait VebKey: Ord + Sized {
    type Hi: Ord;
    type Lo: Ord;
    fn split_val(self) -> (Self::Hi, Self::Lo) where Self: Sized;
    fn join<'a>(hi: MaybeBorrowed<'a, Self::Hi>, lo: MaybeBorrowed<'a, Self::Lo>) -> Self where Self: Sized;
}
pub trait VebKeyRef<Hi: Ord, Lo: Ord> {
    fn split_ref_pair(&self) -> (Hi, Lo);
}
pub trait VebTreeMarker<K, V> {
    type Tree: VebTree<Key = K, Value = V>;
}
pub trait SuperTreeCollection<K: VebKey, V> {
    type Tree: VebTree<Key = K::Lo, Value = V>;
    type TC: TreeCollection<Hi = K::Hi, Tree = Self::Tree>;
}
impl<K: VebKey, V, T> SuperTreeCollection<K, V> for T
where
    T: TreeCollection<Hi = K::Hi>,
    T::Tree: VebTree<Key = K::Lo, Value = V>,
{
    type TC = T;
    type Tree = T::Tree;
}
pub trait VebTreeCollectionMarker<K: VebKey, V> {
    type TreeCollection: SuperTreeCollection<K, V>;
}
pub type CollectionKV<TC> = TreeKV<<TC as TreeCollection>::Tree>;
pub type TreeInsertResult<TC> =
    Result<<TC as TreeCollection>::Hi, (<TC as TreeCollection>::Hi, Option<CollectionKV<TC>>)>;
pub type TreeRemoveResult<TC> = (Option<(TC, bool)>, CollectionKV<TC>);
pub type TreeMaybeRemoveResult<TC> = Result<TreeRemoveResult<TC>, TC>;

pub trait TreeCollection: Sized {
    type Hi;
    type Tree: VebTree;
    /// bound on the steps of the collection's own work (documented as constant)
    spec fn csteps() -> nat;
    fn create(h: &Self::Hi, tree: Self::Tree) -> (r: (Self, Ghost<nat>))
        ensures r.1@ <= Self::csteps();
    fn get(&self, h: &Self::Hi) -> (r: (Option<&Self::Tree>, Ghost<nat>))
        ensures r.1@ <= Self::csteps();
    fn get_mut(&mut self, h: &Self::Hi) -> (r: (Option<&mut Self::Tree>, Ghost<nat>))
        ensures r.1@ <= Self::csteps();
    /// a new tree is made in constant time; only an insertion into a tree that is there descends
    fn insert_key(&mut self, h: Self::Hi, lv: CollectionKV<Self>) -> (r: (TreeInsertResult<Self>, Ghost<nat>))
        ensures r.1@ <= Self::csteps() + 1024 * <Self::Tree as VebTree>::unit() + if r.0 is Ok { 0 } else { <Self::Tree as VebTree>::slow() };
    /// the work on the tree is that of one call of `r`; a tree given up was removed by it in constant time
    fn remove_key<Q, R>(self, h: Q, r: R) -> (ret: (TreeRemoveResult<Self>, Ghost<nat>))
    where
        Q: Borrow<Self::Hi>,
        R: FnOnce(Self::Tree) -> (RemoveResult<Self::Tree>, Ghost<nat>)
        requires any_end_removal::<Self::Tree, R>(r),
        ensures by_end_removal::<Self::Tree, R>(r, Self::csteps(), ret.1@, ret.0.0 matches Some(cb) && cb.1);
    fn maybe_remove_key<Q, R>(self, h: Q, r: R) -> (ret: (TreeMaybeRemoveResult<Self>, Ghost<nat>))
    where
        Q: Borrow<Self::Hi>,
        R: FnOnce(Self::Tree) -> (MaybeRemoveResult<Self::Tree>, Ghost<nat>)
        requires any_removal::<Self::Tree, R>(r),
        ensures (ret.0 is Err && ret.1@ <= Self::csteps()) || by_removal::<Self::Tree, R>(r, Self::csteps(), ret.1@, ret.0 matches Ok(p) && p.0 matches Some(cb) && cb.1);
}
pub open spec fn any_end_removal<T: VebTree, R: FnOnce(T) -> (RemoveResult<T>, Ghost<nat>)>(r: R) -> bool { forall|t: T| #[trigger] r.requires((t,)) }
pub open spec fn any_removal<T: VebTree, R: FnOnce(T) -> (MaybeRemoveResult<T>, Ghost<nat>)>(r: R) -> bool { forall|t: T| #[trigger] r.requires((t,)) }
/// a collection's work `steps`: its own, at most `c`, and one call of `r`, which gave the tree up if `gone`
pub open spec fn by_end_removal<T: VebTree, R: FnOnce(T) -> (RemoveResult<T>, Ghost<nat>)>(r: R, c: nat, steps: nat, gone: bool) -> bool {
    exists|t: T, o: (RemoveResult<T>, Ghost<nat>)| #[trigger] r.ensures((t,), o) && steps <= c + o.1@ && (gone ==> o.0.0 is None)
}
pub open spec fn by_removal<T: VebTree, R: FnOnce(T) -> (MaybeRemoveResult<T>, Ghost<nat>)>(r: R, c: nat, steps: nat, gone: bool) -> bool {
    exists|t: T, o: (MaybeRemoveResult<T>, Ghost<nat>)| #[trigger] r.ensures((t,), o) && steps <= c + o.1@ && (gone ==> (o.0 matches Ok(q) && q.0 is None))
}

pub enum PoloniusResult<B, O, I> { Borrowing(B), Owned { value: O, input_borrow: I } }
#[verifier::external_body]
fn polonius_seq<'a, T>(input: &'a mut T) -> (r: (&'a mut T, &'a mut T))
   ensures *r.0 == *old(input), *r.1 == *final(r.0), *final(input) == *final(r.1)
{ unimplemented!() }
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T)
   ensures r == *old(d), *final(d) == s;
//@include boxes.vrs
