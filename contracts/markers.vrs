// ---- markers (zero-sized types which only name others)
#[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(C)]
pub struct TreeMarker<S, C> { s: PhantomData<S>, c: PhantomData<C> }
#[verifier::reject_recursive_types(T)] pub struct BoxMarker<T> { t: PhantomData<T> }
#[verifier::reject_recursive_types(T)] pub struct GenericArrayMarker<T> { t: PhantomData<T> }
#[verifier::reject_recursive_types(A)] pub struct ArrayTreeCollectionMarker<A> { a: PhantomData<A> }
#[verifier::reject_recursive_types(L)] #[verifier::reject_recursive_types(T)]
pub struct ByteCollectionMarker<L, T> { l: PhantomData<L>, t: PhantomData<T> }
#[verifier::reject_recursive_types(L)] pub struct ByteTreeMarker<L> { l: PhantomData<L> }
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(S)]
pub struct HashMapMarker<T = (), S = DefaultHashBuilder> { t: PhantomData<T>, s: PhantomData<S> }
pub struct DefaultHashBuilder { x: u8 }
impl BuildHasher for DefaultHashBuilder {}
impl Default for DefaultHashBuilder { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
pub struct ByteSetMarker { x: u8 }
pub struct VecDequeMarker { x: u8 }
pub trait ArrayMarker<K: SizedVebKey, V> { type Array: OptionArray<K::Cardinality>; }
pub trait ListMarker<V> { type List: List<Value = V>; }
pub trait TreeListMarker<Tree: VebTree> { type List: TreeList<Tree = Tree>; }
//@impl src/tree.rs VebTreeMarker<K,V> for TreeMarker
//@endimpl
//@impl src/markers.rs VebTreeMarker<K,V> for BoxMarker
//@endimpl
//@impl src/bitset/set.rs VebTreeMarker<u8,()> for ByteSetMarker
//@endimpl
//@impl src/bitset/map/mod.rs VebTreeMarker<u8,V> for ByteTreeMarker
//@subst hdr list::ListMarker => ListMarker
//@endimpl
//@impl src/bitset/map/mod.rs VebTreeCollectionMarker<K,V> for ByteCollectionMarker
//@subst hdr list::TreeListMarker => TreeListMarker
//@endimpl
//@impl src/bitset/map/list.rs ListMarker<V> for VecDequeMarker
//@endimpl
//@impl src/bitset/map/list.rs TreeListMarker<Tree> for VecDequeMarker
//@endimpl
//@impl src/collection/array.rs VebTreeCollectionMarker<K,V> for ArrayTreeCollectionMarker
//@endimpl
//@impl src/collection/array.rs ArrayMarker<K,V> for BoxMarker
//@endimpl
//@impl src/collection/array.rs ArrayMarker<K,V> for GenericArrayMarker
//@endimpl
//@impl src/collection/hash.rs VebTreeCollectionMarker<K,V> for HashMapMarker
//@endimpl
//@type src/markers.rs VebTreeType
//@type src/markers.rs Marker8Empty
//@type src/markers.rs Marker8
//@type src/markers.rs Marker16Empty
//@type src/markers.rs Marker16
//@type src/markers.rs Marker32Empty
//@type src/markers.rs Marker32
//@type src/markers.rs Marker64Empty
//@type src/markers.rs Marker64
