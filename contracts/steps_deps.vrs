// The dependencies' own operations count as one step each (assumed: their time is not this crate's).
pub trait Unsigned { const USIZE: usize; }
pub trait ArrayLength: Unsigned { }
pub trait SizedVebKey: Sized {
    type Cardinality: Unsigned;
    fn index(&self) -> (r: usize);
}
pub trait OptionArray<Cardinality: Unsigned>: Sized {
    type V: VebTree;
    fn create() -> (r: (Self, Ghost<nat>)) ensures r.1@ <= 16;
    fn get(&self, i: usize) -> (r: (&Option<Self::V>, Ghost<nat>)) ensures r.1@ <= 16;
    fn get_mut(&mut self, i: usize) -> (r: (&mut Option<Self::V>, Ghost<nat>)) ensures r.1@ <= 16;
}
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T> [std::vec::Vec::<T, A>::resize_with] (v: &mut std::vec::Vec<T, A>, n: usize, f: F);
pub assume_specification<T, A: core::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>);
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
pub struct GenericArray<T, C> { v: Vec<T>, c: PhantomData<C> }
impl<T, C> GenericArray<T, C> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) where C: ArrayLength { unimplemented!() }
}
/// indexing, which may panic: that it does not is shown in the other units
pub trait Indexed { type E; fn at_(&self, i: usize) -> (r: &Self::E); fn at_mut_(&mut self, i: usize) -> (r: &mut Self::E); }
impl<T, C> Indexed for GenericArray<T, C> { type E = T; #[verifier::external_body] fn at_(&self, i: usize) -> (r: &T) { unimplemented!() } #[verifier::external_body] fn at_mut_(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } }
impl<T> Indexed for Box<[T]> { type E = T; #[verifier::external_body] fn at_(&self, i: usize) -> (r: &T) { unimplemented!() } #[verifier::external_body] fn at_mut_(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } }
impl<T> Indexed for VecDeque<T> { type E = T; #[verifier::external_body] fn at_(&self, i: usize) -> (r: &T) { unimplemented!() } #[verifier::external_body] fn at_mut_(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } }
impl<T> Indexed for Vec<T> { type E = T; #[verifier::external_body] fn at_(&self, i: usize) -> (r: &T) { unimplemented!() } #[verifier::external_body] fn at_mut_(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } }
impl<T, const N: usize> Indexed for [T; N] { type E = T; #[verifier::external_body] fn at_(&self, i: usize) -> (r: &T) { unimplemented!() } #[verifier::external_body] fn at_mut_(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } }

// hashbrown::HashMap
pub trait Hash { }
pub trait BuildHasher { }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S> { k: Vec<K>, v: Vec<V>, s: PhantomData<S> }
impl<K, V, S> HashMap<K, V, S> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: (Option<&V>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: (Option<&mut V>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: (Option<V>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: (Option<V>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_hasher(h: S) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: S) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V, S>) { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_entry(&self) -> (r: RawEntryBuilder<'_, K, V, S>) { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_entry_mut(&mut self) -> (r: RawEntryBuilderMut<'_, K, V, S>) ensures *r.d == *old(self), *final(self) == *final(r.d) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawEntryBuilderMut<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> RawEntryBuilderMut<'a, K, V, S> {
    #[verifier::external_body]
    pub fn from_key(self, k: &K) -> (r: RawEntryMut<'a, K, V, S>) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub enum RawEntryMut<'a, K, V, S> { Occupied(RawOccupiedEntryMut<'a, K, V, S>), Vacant(RawVacantEntryMut<'a, K, V, S>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawOccupiedEntryMut<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawVacantEntryMut<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawSlot<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> RawVacantEntryMut<'a, K, V, S> {
    #[verifier::external_body]
    pub fn insert(self, k: K, v: V) -> (r: ((&'a mut K, &'a mut V), Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
}
impl<'a, K, V, S> RawOccupiedEntryMut<'a, K, V, S> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: (&V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: (&mut V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: (V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: (V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (K, V)) { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_replace(self) -> (r: (&'a K, V, RawSlot<'a, K, V, S>)) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawEntryBuilder<'a, K, V, S> { pub d: &'a HashMap<K, V, S> }
impl<'a, K, V, S> RawEntryBuilder<'a, K, V, S> {
    #[verifier::external_body]
    pub fn from_key(self, k: &K) -> (r: Option<(&'a K, &'a V)>) { unimplemented!() }
}
impl<'a, K, V, S> RawSlot<'a, K, V, S> {
    #[verifier::external_body]
    pub fn finish_replace(self, out: Option<V>) -> (r: RawEntryMut<'a, K, V, S>) ensures out is Some <==> r is Occupied { unimplemented!() }
}

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub enum Entry<'a, K, V, S> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct OccupiedEntry<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct VacantEntry<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: (&V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: (&mut V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: (V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: (V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (K, V)) { unimplemented!() }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_key(self) -> (r: K) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: (&'a mut V, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
}
// VecDeque and vec_entry
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { x: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [T; N]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: (Option<&T>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: (Option<&mut T>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [T; N]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn back_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: T) -> (r: ((), Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: (Option<T>, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, i: usize) -> (r: VecEntry_<'_, T>) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub enum VecEntry_<'a, T> { Occupied(OccupiedVecEntry_<'a, T>), Vacant(VacantVecEntry_<'a, T>) }
#[verifier::reject_recursive_types(T)]
pub struct OccupiedVecEntry_<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
#[verifier::reject_recursive_types(T)]
pub struct VacantVecEntry_<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
#[verifier::reject_recursive_types(T)]
pub struct Slot<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
impl<'a, T> OccupiedVecEntry_<'a, T> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: (&T, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: (&mut T, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut T) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (usize, T)) { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_replace(self) -> (r: (&'a usize, T, Slot<'a, T>)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: (T, Ghost<nat>)) ensures r.1@ <= 1 { unimplemented!() }
}
impl<'a, T> Slot<'a, T> {
    #[verifier::external_body]
    pub fn finish_replace<R>(self, out: (Option<T>, R)) -> (r: (VecEntry_<'a, T>, R)) ensures r.1 == out.1 { unimplemented!() }
}
pub type TreeListRemoveResult<TL> = (Option<(TL, bool)>, TreeKV<<TL as TreeList>::Tree>);
pub type TreeListMaybeRemoveResult<TL> = Result<TreeListRemoveResult<TL>, TL>;
pub trait TreeList: Sized {
    type Tree: VebTree;
    fn from_monad(v: Self::Tree) -> (r: (Self, Ghost<nat>)) ensures r.1@ <= 16;
    fn len(&self) -> (r: NonZeroUsize);
    fn get(&self, i: usize) -> (r: (&Self::Tree, Ghost<nat>)) ensures r.1@ <= 16;
    fn get_mut(&mut self, i: usize) -> (r: (&mut Self::Tree, Ghost<nat>)) ensures r.1@ <= 16;
    fn insert_tree(&mut self, i: usize, v: Self::Tree) -> (r: ((), Ghost<nat>)) ensures r.1@ <= 16;
    fn remove_key<F>(self, i: usize, f: F) -> (ret: (TreeListRemoveResult<Self>, Ghost<nat>))
    where
        F: FnOnce(Self::Tree) -> (RemoveResult<Self::Tree>, Ghost<nat>)
        requires any_end_removal::<Self::Tree, F>(f),
        ensures by_end_removal::<Self::Tree, F>(f, 16, ret.1@, ret.0.0 matches Some(cb) && cb.1);
    fn maybe_remove_key<F>(self, i: usize, f: F) -> (ret: (TreeListMaybeRemoveResult<Self>, Ghost<nat>))
    where
        F: FnOnce(Self::Tree) -> (MaybeRemoveResult<Self::Tree>, Ghost<nat>)
        requires any_removal::<Self::Tree, F>(f),
        ensures (ret.0 is Err && ret.1@ <= 16) || by_removal::<Self::Tree, F>(f, 16, ret.1@, ret.0 matches Ok(p) && p.0 matches Some(cb) && cb.1);
}
pub trait List: Sized {
    type Value;
    fn from_monad(v0: Self::Value) -> (r: (Self, Ghost<nat>)) ensures r.1@ <= 16;
    fn len(&self) -> (r: usize);
    fn get(&self, i: usize) -> (r: (&Self::Value, Ghost<nat>)) ensures r.1@ <= 16;
    fn get_mut(&mut self, i: usize) -> (r: (&mut Self::Value, Ghost<nat>)) ensures r.1@ <= 16;
    fn insert_value(&mut self, i: usize, v: Self::Value) -> (r: ((), Ghost<nat>)) ensures r.1@ <= 16;
    fn remove_value(self, i: usize) -> (r: ((Option<Self>, Self::Value), Ghost<nat>)) ensures r.1@ <= 16;
}
