//@include steps_prelude.vrs
//@type src/tree.rs TC
//@struct src/tree.rs Tree
//@struct src/tree.rs TreeData
//@impl src/tree.rs VebTree for Tree
//@subst * ChildTree => <TC<Children, K, V> as TreeCollection>::Tree
//@default src/lib.rs VebTree len_hint
    open spec fn unit() -> nat { 8 }
    /// one level's own work, and one descent: into the summary or into a child, not both
    open spec fn slow() -> nat {
        level_steps(TC::<Children, K, V>::csteps(), Summary::Tree::unit(), <TC::<Children, K, V> as TreeCollection>::Tree::unit())
            + max2(Summary::Tree::slow(), <TC::<Children, K, V> as TreeCollection>::Tree::slow())
    }
    proof fn lemma_steps() { }
//@prologue * proof { Summary::Tree::lemma_steps(); <TC::<Children, K, V> as TreeCollection>::Tree::lemma_steps(); }
//@endimpl
//@include nonzero.vrs
//@struct src/lib.rs SizedVebTree
//@exconst src/lib.rs ONE ensures ONE.v() == 1
//@impl src/lib.rs VebTree for SizedVebTree
//@default src/lib.rs VebTree len_hint
    open spec fn unit() -> nat { 8 + 4 * V::unit() }
    open spec fn slow() -> nat { 16384 + 4096 * V::unit() + V::slow() }
    proof fn lemma_steps() { V::lemma_steps(); }
//@prologue * proof { V::lemma_steps(); }
//@endimpl
//@impl src/lib.rs VebTree for Box
//@default src/lib.rs VebTree len_hint
    open spec fn unit() -> nat { 8 + 4 * V::unit() }
    open spec fn slow() -> nat { 16384 + 4096 * V::unit() + V::slow() }
    proof fn lemma_steps() { V::lemma_steps(); }
//@prologue * proof { V::lemma_steps(); }
//@endimpl
//@impl src/collection/mod.rs TreeCollection for Box
    open spec fn csteps() -> nat { 64 + 8 * T::csteps() }
//@endimpl
//@include steps_deps.vrs
//@impl src/collection/array.rs OptionArray<Cardinality> for Box
//@endimpl
//@impl src/collection/array.rs OptionArray<Cardinality> for GenericArray
//@endimpl
//@struct src/collection/array.rs ArrayTreeCollection
//@impl src/collection/array.rs TreeCollection for ArrayTreeCollection
//@subst * ChildTree => A::V
    open spec fn csteps() -> nat { 64 }
//@prologue * proof { A::V::lemma_steps(); }
//@endimpl
//@impl src/collection/hash.rs TreeCollection for HashMap
//@subst * ChildTree => V
    open spec fn csteps() -> nat { 64 }
//@prologue * proof { V::lemma_steps(); }
//@endimpl
//@struct src/bitset/set.rs ByteSet noclone
impl Copy for ByteSet {}
//@cloneof src/bitset/set.rs ByteSet
//@end
//@impl src/bitset/set.rs ByteSet
//@external *
//@contract array_len -> r
//@end
//@contract from_array -> r
//@end
//@contract len -> r
//@end
//@contract lowest -> r
//@end
//@contract highest -> r
//@end
//@contract count_below -> r
//@end
//@contract mask_lower -> r
//@end
//@contract mask_higher -> r
//@end
//@contract is_present -> r
//@end
//@contract set_bit -> r
//@end
//@contract array_set_bit -> r
//@end
//@contract unset_bit -> r
//@end
//@endimpl
//@impl src/bitset/set.rs VebTree for ByteSet
//@default src/lib.rs VebTree len_hint
    open spec fn unit() -> nat { 8 }
    open spec fn slow() -> nat { 8192 }
    proof fn lemma_steps() { }
//@contract remove -> r
ensures r.1@ <= 256 * Self::unit()
//@end
//@endimpl
//@impl src/bitset/map/list.rs TreeList for VecDeque
//@subst * Entry => VecEntry_
//@subst * ChildTree => V
//@endimpl
//@impl src/bitset/map/list.rs List for VecDeque
//@subst * Entry => VecEntry_
//@endimpl
//@struct src/bitset/map/mod.rs ByteMap
//@impl src/bitset/map/mod.rs TreeCollection for ByteMap
//@subst * ChildTree => L::Tree
    open spec fn csteps() -> nat { 65536 }
//@prologue * proof { L::Tree::lemma_steps(); }
//@endimpl
//@impl src/bitset/map/mod.rs VebTree for ByteMap
//@default src/lib.rs VebTree len_hint
    open spec fn unit() -> nat { 256 }
    open spec fn slow() -> nat { 262144 }
    proof fn lemma_steps() { }
//@contract remove -> r
ensures r.1@ <= 256 * Self::unit()
//@end
//@endimpl
// ---- the shipped tree types: a level of the tower halves the bits of the keys, and adds the same to the steps
pub struct Card<const N: usize>;
impl<const N: usize> Unsigned for Card<N> { const USIZE: usize = N; }
impl<const N: usize> ArrayLength for Card<N> { }
impl Hash for u8 {} impl Hash for u16 {} impl Hash for u32 {} impl Hash for u64 {} impl Hash for i8 {} impl Hash for i16 {} impl Hash for i32 {} impl Hash for i64 {}
//@include markers.vrs
pub trait CloneVebKeyRef: VebKey + Clone + Ord {}
impl<T: CloneVebKeyRef> VebKeyRef<T::Hi, T::Lo> for T {
    fn split_ref_pair(&self) -> (r: (T::Hi, T::Lo)) { self.clone().split_val() }
}
//@impl src/key.rs VebKey for u16
//@external *
//@endimpl
impl CloneVebKeyRef for u16 {}
//@impl src/key.rs VebKey for i16
//@external *
//@endimpl
impl CloneVebKeyRef for i16 {}
//@impl src/key.rs VebKey for u32
//@external *
//@endimpl
impl CloneVebKeyRef for u32 {}
//@impl src/key.rs VebKey for i32
//@external *
//@endimpl
impl CloneVebKeyRef for i32 {}
//@impl src/key.rs VebKey for u64
//@external *
//@endimpl
impl CloneVebKeyRef for u64 {}
//@impl src/key.rs VebKey for i64
//@external *
//@endimpl
impl CloneVebKeyRef for i64 {}
//@impl src/key.rs SizedVebKey for u8
//@skipconst CARDINALITY
//@external *
//@endimpl
//@impl src/key.rs SizedVebKey for u16
//@skipconst CARDINALITY
//@external *
//@endimpl
//@impl src/key.rs SizedVebKey for u32
//@skipconst CARDINALITY
//@external *
//@endimpl
/// steps of the trees of 8-bit keys, and of each doubling of the bits above that
pub open spec fn base_steps() -> nat { 262144 }
pub open spec fn doubling_steps() -> nat { level_steps(65536, 2048, 2048) }
pub open spec fn within<T: VebTree>(doublings: nat) -> bool { T::unit() <= 2048 && T::slow() <= base_steps() + doublings * doubling_steps() }
pub proof fn steps_8<V>() ensures within::<VebTreeType<u8, (), Marker8Empty>>(0), within::<VebTreeType<u8, V, Marker8>>(0) { }
pub proof fn steps_16<V>() ensures within::<VebTreeType<u16, (), Marker16Empty>>(1), within::<VebTreeType<u16, V, Marker16>>(1), within::<VebTreeType<i16, (), Marker16Empty>>(1), within::<VebTreeType<i16, V, Marker16>>(1) { steps_8::<V>(); }
pub proof fn steps_32<V>() ensures within::<VebTreeType<u32, (), Marker32Empty>>(2), within::<VebTreeType<u32, V, Marker32>>(2), within::<VebTreeType<i32, (), Marker32Empty>>(2), within::<VebTreeType<i32, V, Marker32>>(2) { steps_16::<V>(); }
pub proof fn steps_64<V>() ensures within::<VebTreeType<u64, (), Marker64Empty>>(3), within::<VebTreeType<u64, V, Marker64>>(3), within::<VebTreeType<i64, (), Marker64Empty>>(3), within::<VebTreeType<i64, V, Marker64>>(3) { steps_32::<V>(); }
/// the same of every tower, however high: a tree over a summary and children within `d` doublings is within `d + 1`
pub proof fn steps_tower<K, V, S, C>(d: nat)
    where K: VebKey + VebKeyRef<K::Hi, K::Lo>, S: VebTreeMarker<K::Hi, ()>, C: VebTreeCollectionMarker<K, V>,
    requires within::<S::Tree>(d), within::<<TC::<C, K, V> as TreeCollection>::Tree>(d), TC::<C, K, V>::csteps() <= 65536,
    ensures within::<Tree<K, V, S, C>>(d + 1),
{ assert((d + 1) * doubling_steps() == d * doubling_steps() + doubling_steps()) by(nonlinear_arith); }
} // verus!
fn main() {}
