//@include prelude.vrs
//@unit tree.vrs
//@unit bytemap.vrs
//@unit array.vrs
//@unit hash.vrs
//@unit lib.vrs
global size_of usize == 8;
pub struct Card<const N: usize>;
impl<const N: usize> Unsigned for Card<N> { const USIZE: usize = N; }
impl<const N: usize> ArrayLength for Card<N> { }

//@include markers.vrs

// ---- the keys
//@include keybits.vrs
pub trait CloneVebKeyRef: VebKey + Clone + Ord {}
/// split_ref of a clonable key (proved against its body in unit keys)
impl<T: CloneVebKeyRef> VebKeyRef<T::Hi, T::Lo> for T {
    open spec fn rlaws() -> bool { T::klaws() && clone_ok::<T>() }
    open spec fn sr(&self) -> (T::Hi, T::Lo) { (self.hi(), self.lo()) }
    fn split_ref_pair(&self) -> (r: (T::Hi, T::Lo)) { self.clone().split_val() }
}
//@include instkeys.vrs

// ---- the laws the trees' contracts ask for hold of every tree type the crate ships
/// `Clone` of the integers is a copy (core)
pub axiom fn ax_int_clone() ensures clone_ok::<u8>(), clone_ok::<u16>(), clone_ok::<u32>(), clone_ok::<u64>(), clone_ok::<u128>(),
    clone_ok::<i8>(), clone_ok::<i16>(), clone_ok::<i32>(), clone_ok::<i64>(), clone_ok::<i128>();
/// `Hash` of the integers agrees with `==` (core)
pub axiom fn ax_int_hash() ensures hash_ok::<u8>(), hash_ok::<u16>(), hash_ok::<u32>(), hash_ok::<u64>(), hash_ok::<i8>(), hash_ok::<i16>(), hash_ok::<i32>(), hash_ok::<i64>();
impl Hash for u8 {} impl Hash for u16 {} impl Hash for u32 {} impl Hash for u64 {} impl Hash for i8 {} impl Hash for i16 {} impl Hash for i32 {} impl Hash for i64 {}
pub proof fn laws_8<V>()
    ensures VebTreeType::<u8, (), Marker8Empty>::laws(), VebTreeType::<u8, V, Marker8>::laws(), VebTreeType::<u8, V, BoxMarker<Marker8>>::laws()
{ }
pub proof fn laws_16<V>()
    ensures VebTreeType::<u16, (), Marker16Empty>::laws(), VebTreeType::<u16, V, Marker16>::laws(), VebTreeType::<i16, (), Marker16Empty>::laws(), VebTreeType::<i16, V, Marker16>::laws(),
{ ax_int_clone(); ax_int_hash(); laws_8::<V>(); assert(ix_ok::<u8>()); }
pub proof fn laws_32<V>()
    ensures VebTreeType::<u32, (), Marker32Empty>::laws(), VebTreeType::<u32, V, Marker32>::laws(), VebTreeType::<i32, (), Marker32Empty>::laws(), VebTreeType::<i32, V, Marker32>::laws(),
{ ax_int_clone(); ax_int_hash(); laws_16::<V>(); laws_16::<()>(); assert(ix_ok::<u16>()); }
pub proof fn laws_64<V>()
    ensures VebTreeType::<u64, (), Marker64Empty>::laws(), VebTreeType::<u64, V, Marker64>::laws(), VebTreeType::<i64, (), Marker64Empty>::laws(), VebTreeType::<i64, V, Marker64>::laws(),
{ ax_int_clone(); ax_int_hash(); laws_32::<V>(); laws_32::<()>(); assert(ix_ok::<u32>()); }
/// the same of the other collections of subtrees: byte maps, hash maps, inline arrays
pub type ByteTree16 = TreeMarker<Marker8Empty, ByteCollectionMarker<VecDequeMarker, Marker8>>;
pub type HashTree16<S> = TreeMarker<Marker8Empty, HashMapMarker<Marker8, S>>;
pub type HashTree32<S> = TreeMarker<Marker16Empty, HashMapMarker<HashTree16<S>, S>>;
pub type InlineTree16 = TreeMarker<Marker8Empty, ArrayTreeCollectionMarker<GenericArrayMarker<Marker8>>>;
pub proof fn laws_other<V, S: BuildHasher + Default>()
    ensures VebTreeType::<u16, V, ByteTree16>::laws(), VebTreeType::<i16, V, ByteTree16>::laws(), VebTreeType::<u16, V, InlineTree16>::laws(), VebTreeType::<i16, V, InlineTree16>::laws(),
        VebTreeType::<u16, V, HashTree16<S>>::laws() && VebTreeType::<i16, V, HashTree16<S>>::laws(),
        VebTreeType::<u32, V, HashTree32<S>>::laws() && VebTreeType::<i32, V, HashTree32<S>>::laws(),
{ ax_int_clone(); ax_int_hash(); laws_8::<V>(); laws_16::<()>(); assert(ix_ok::<u8>()); }
pub proof fn laws_sized<V>()
    ensures SizedVebTree::<VebTreeType<u16, V, Marker16>>::laws(), SizedVebTree::<VebTreeType<u32, V, Marker32>>::laws(), SizedVebTree::<VebTreeType<u64, V, Marker64>>::laws(), Box::<VebTreeType<u64, V, Marker64>>::laws()
{ laws_16::<V>(); laws_32::<V>(); laws_64::<V>(); }

// ---- clones: a tree type copies to the same entries, given that for its parts; the shipped tree types which can be cloned
pub open spec fn clone_same<T: VebTree + Clone>() -> bool { forall|a: &T, b: T| #[trigger] call_ensures(T::clone, (a,), b) ==> T::laws() ==> same_tree(*a, b) }
pub open spec fn clone_coll<C: TreeCollection + Clone>() -> bool { forall|a: &C, b: C| #[trigger] call_ensures(C::clone, (a,), b) ==> C::laws() ==> same_coll(*a, b) }
pub open spec fn clone_of<T: Clone>(a: T, b: T) -> bool { call_ensures(T::clone, (&a,), b) }
/// `Clone` of pairs clones the parts (core)
pub axiom fn ax_pair_clone<A: Clone, B: Clone>() ensures forall|a: (A, B), b: (A, B)| #[trigger] clone_of(a, b) ==> clone_of(a.0, b.0) && clone_of(a.1, b.1);
/// `Clone` of a HashMap clones the values in place (hashbrown)
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures clone_ok::<K>() ==> (forall|k: K| self@.contains_key(k) <==> #[trigger] r@.contains_key(k)) && forall|k: K| #![trigger r@[k]] self@.contains_key(k) ==> clone_of(self@[k], r@[k]) { unimplemented!() }
}
proof fn lemma_clone_of<T: Clone>() requires clone_ok::<T>() ensures forall|a: T, b: T| #[trigger] clone_of(a, b) ==> a == b { }
proof fn lemma_clone_ok<T: Clone>() requires forall|a: T, b: T| #[trigger] clone_of(a, b) ==> a == b ensures clone_ok::<T>()
{ assert forall|a: &T, r: T| #[trigger] call_ensures(T::clone, (a,), r) implies r == *a by { assert(clone_of(*a, r)); } }
/// `Clone` of `Option` (the contract vstd assumes)
proof fn lemma_option<T: Clone>(a: Option<T>, b: Option<T>) requires call_ensures(<Option<T> as Clone>::clone, (&a,), b)
    ensures match a { None => b is None, Some(x) => b matches Some(y) && (clone_of(x, y) || x == y) } { }
/// one level: `Tree` with a hash collection, given the clones of its summary and subtrees
pub proof fn clones_level<K: VebKey + VebKeyRef<K::Hi, K::Lo> + Clone, V: Clone, SM: VebTreeMarker<K::Hi, ()>, CM: VebTreeCollectionMarker<K, V>>()
    where SM::Tree: Clone, TC<CM, K, V>: Clone
    requires Tree::<K, V, SM, CM>::laws(), clone_ok::<K>(), clone_ok::<V>(), clone_same::<SM::Tree>(), clone_coll::<TC<CM, K, V>>()
    ensures clone_same::<Tree<K, V, SM, CM>>()
{
    ax_pair_clone::<K, V>(); ax_pair_clone::<SM::Tree, TC<CM, K, V>>();
    lemma_clone_of::<K>(); lemma_clone_of::<V>();
    assert forall|a: (K, V), b: (K, V)| #[trigger] clone_of(a, b) implies a == b by { assert(clone_of(a.0, b.0) && clone_of(a.1, b.1)); }
    lemma_clone_ok::<(K, V)>();
    assert forall|a: &ChildOpt<K, V, SM, CM>, b: ChildOpt<K, V, SM, CM>| #[trigger] call_ensures(<Option<(SM::Tree, TC<CM, K, V>)> as Clone>::clone, (a,), b) implies same_children::<K, V, SM, CM>(*a, b) by {
        lemma_option::<(SM::Tree, TC<CM, K, V>)>(*a, b);
        if let Some(x) = *a { if clone_of(x, b->0) { assert(clone_of(x.0, (b->0).0)); assert(clone_of(x.1, (b->0).1)); assert(same_tree(x.0, (b->0).0)); } }
    }
    assert(children_clone::<K, V, SM, CM>());
    assert forall|a: &Option<TreeData<SM, CM, K, V>>, b: Option<TreeData<SM, CM, K, V>>| #[trigger] call_ensures(<Option<TreeData<SM, CM, K, V>> as Clone>::clone, (a,), b) implies
        (match *a { None => b is None, Some(x) => b matches Some(y) && same_data(x, y) }) by {
        lemma_option::<TreeData<SM, CM, K, V>>(*a, b);
    }
    assert(data_clone::<K, V, SM, CM>());
    assert forall|a: &Tree<K, V, SM, CM>, b: Tree<K, V, SM, CM>| #[trigger] call_ensures(<Tree<K, V, SM, CM> as Clone>::clone, (a,), b) && Tree::<K, V, SM, CM>::laws() implies same_tree(*a, b) by {
        lemma_same(*a, b);
    }
}
/// a hash collection, given the clone of its trees
pub proof fn clones_hash<Hi: Clone + Eq + Hash, V: VebTree + Clone, S: BuildHasher + Default + Clone>()
    requires V::laws(), clone_same::<V>()
    ensures clone_coll::<HashMap<Hi, V, S>>()
{
    assert forall|a: &HashMap<Hi, V, S>, b: HashMap<Hi, V, S>| #[trigger] call_ensures(HashMap::<Hi, V, S>::clone, (a,), b) && HashMap::<Hi, V, S>::laws() && a.wf() implies same_coll(*a, b) by {
        let h = choose|h: Hi| #[trigger] a@.contains_key(h);
        assert(b@.contains_key(h));
        assert forall|h: Hi| a@.contains_key(h) implies same_tree(#[trigger] a@[h], b@[h]) by { assert(clone_of(a@[h], b@[h])); }
    }
}
/// trees over hash collections of byte sets (the shipped parts of `Marker16`, `Marker32` hold arrays and byte maps, which cannot be cloned)
pub proof fn clones_16<S: BuildHasher + Default + Clone>()
    ensures clone_same::<VebTreeType<u16, (), TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>>>()
{
    ax_int_clone(); ax_int_hash(); laws_8::<()>(); assert(clone_same::<ByteSet>());
    clones_hash::<u8, ByteSet, S>();
    assert(clone_ok::<()>()) by { assert forall|a: (), b: ()| #[trigger] clone_of(a, b) implies a == b by { } lemma_clone_ok::<()>(); }
    clones_level::<u16, (), Marker8Empty, HashMapMarker<Marker8Empty, S>>();
}
pub proof fn clones_32<S: BuildHasher + Default + Clone>()
    ensures clone_same::<VebTreeType<u32, (), TreeMarker<TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>, HashMapMarker<TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>, S>>>>()
{
    ax_int_clone(); ax_int_hash(); laws_8::<()>(); clones_16::<S>();
    assert(clone_ok::<()>()) by { assert forall|a: (), b: ()| #[trigger] clone_of(a, b) implies a == b by { } lemma_clone_ok::<()>(); }
    clones_hash::<u16, VebTreeType<u16, (), TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>>, S>();
    clones_level::<u32, (), TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>, HashMapMarker<TreeMarker<Marker8Empty, HashMapMarker<Marker8Empty, S>>, S>>();
}

// ---- programs against the contracts: what a user of a shipped type may conclude
fn client_32() {
    proof { laws_32::<u8>(); }
    let mut t = <VebTreeType<u32, u8, Marker32> as VebTree>::from_monad(70000, 1);
    proof { t.lemma_wf(); }
    let o = t.insert(5, 2);
    assert(o is None);
    let o = t.insert(70000, 3);
    assert(o == Some((70000u32, 1u8)));
    {
        let (k, v) = t.min_val();
        assert(t@.contains_key(5)); assert(t@.contains_key(70000));
        assert(k.v() == 5 && *v == 2);
        let p = t.predecessor(70000u32);
        assert(no_pred(t@, 70000u32) ==> !klt(5u32, 70000u32));
        assert(p is Some && (p->0).0.v() == 5);
        let s = t.successor(70000u32);
        assert(s is None);
    }
    let ghost m = t@;
    match t.remove(5u32) {
        Ok((Some(t), kv)) => { assert(kv == (5u32, 2u8)); assert(t@ =~= IMap::<u32, u8>::empty().insert(70000, 3)); }
        Ok((None, _)) => { assert(m.contains_key(70000)); assert(false); }
        Err(_) => { assert(m.contains_key(5)); assert(false); }
    }
}
fn client_i64_order() {
    proof { laws_64::<()>(); }
    let mut t = <VebTreeType<i64, (), Marker64> as VebTree>::from_monad(3, ());
    let _ = t.insert(-7, ());
    let (k, _) = t.min_val();
    assert(t@.contains_key((-7) as i64)); assert(t@.contains_key(3));
    assert(k.v() == -7);
    let (k, _) = t.max_val();
    assert(k.v() == 3);
}
fn client_sized<V>(t: SizedVebTree<VebTreeType<u64, V, Marker64>>, k: u64) -> (r: Option<SizedVebTree<VebTreeType<u64, V, Marker64>>>)
    requires t.wf()
    ensures r matches Some(u) ==> u.wf() && cnt(u@) == cnt(t@) - (if t@.contains_key(k) { 1int } else { 0 }) && !u@.contains_key(k)
{
    proof { laws_sized::<V>(); cnt_remove(t@, k); assert(fin(t.tree@)); }
    match t.remove(k) { Ok((x, _)) => x, Err(x) => Some(x) }
}
} // verus!
fn main() {}
