//@include prelude.vrs
pub trait Unsigned { const USIZE: usize; }
pub trait ArrayLength: Unsigned { }
pub trait SizedVebKey: Sized {
    type Cardinality: Unsigned;
    spec fn slaws() -> bool;
    spec fn ix(self) -> int;
    fn index(&self) -> (r: usize)
        requires Self::slaws(),
        ensures r == self.ix();
}
/// a sized key's index is injective and below its cardinality
pub open spec fn ix_ok<H: SizedVebKey>() -> bool {
    &&& H::slaws()
    &&& forall|h: H| 0 <= #[trigger] h.ix() < <H::Cardinality as Unsigned>::USIZE
    &&& forall|a: H, b: H| #[trigger] a.ix() == #[trigger] b.ix() ==> a == b
}
pub open spec fn has_ix<H: SizedVebKey>(i: int) -> bool { exists|h: H| #[trigger] h.ix() == i }
pub open spec fn all_none<V>(s: Seq<Option<V>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is None }
pub open spec fn nsome<V>(s: Seq<Option<V>>, n: int) -> int decreases n { if n <= 0 { 0 } else { nsome(s, n - 1) + if s[n - 1] is Some { 1int } else { 0 } } }
proof fn nsome_upd<V>(s: Seq<Option<V>>, i: int, v: Option<V>, n: int)
    requires 0 <= i < s.len(), 0 <= n <= s.len()
    ensures nsome(s.update(i, v), n) == nsome(s, n) - (if i < n && s[i] is Some { 1int } else { 0 }) + (if i < n && v is Some { 1int } else { 0 })
    decreases n
{ if n > 0 { nsome_upd(s, i, v, n - 1); } }
proof fn nsome_bounds<V>(s: Seq<Option<V>>, n: int) requires 0 <= n <= s.len()
    ensures 0 <= nsome(s, n) <= n, forall|i: int| 0 <= i < n && #[trigger] s[i] is Some ==> nsome(s, n) >= 1, forall|i: int| 0 <= i < n && #[trigger] s[i] is None ==> nsome(s, n) <= n - 1,
       nsome(s, n) >= 1 ==> exists|i: int| 0 <= i < n && #[trigger] s[i] is Some,
       nsome(s, n) <= 1 ==> forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] s[i] is Some && #[trigger] s[j] is Some ==> i == j,
    decreases n
{
    if n > 0 { nsome_bounds(s, n - 1); }
    if nsome(s, n) >= 1 { if s[n - 1] is Some { } else { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s[i] is Some; assert(s[i] is Some); } }
}
proof fn nsome_none<V>(s: Seq<Option<V>>, n: int) requires 0 <= n <= s.len(), all_none(s) ensures nsome(s, n) == 0 decreases n { if n > 0 { nsome_none(s, n - 1); } }
pub proof fn lemma_nsome<V>()
    ensures
        forall|s: Seq<Option<V>>| #[trigger] nsome(s, s.len() as int) >= 0 && nsome(s, s.len() as int) <= s.len(),
        forall|s: Seq<Option<V>>, i: int| #![trigger nsome(s, s.len() as int), s[i]] 0 <= i < s.len() ==> (s[i] is Some ==> nsome(s, s.len() as int) >= 1) && (s[i] is None ==> nsome(s, s.len() as int) <= s.len() - 1),
        forall|s: Seq<Option<V>>, i: int, j: int| #![trigger nsome(s, s.len() as int), s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && nsome(s, s.len() as int) <= 1 && s[i] is Some && s[j] is Some ==> i == j,
        forall|s: Seq<Option<V>>, i: int, v: Option<V>| #![trigger s.update(i, v)] 0 <= i < s.len() ==> nsome(s.update(i, v), s.len() as int) == nsome(s, s.len() as int) - (if s[i] is Some { 1int } else { 0 }) + (if v is Some { 1int } else { 0 }),
        forall|s: Seq<Option<V>>| #![trigger all_none(s)] all_none(s) ==> nsome(s, s.len() as int) == 0,
        forall|s: Seq<Option<V>>, i: int, a: Option<V>, b: Option<V>| #[trigger] s.update(i, a).update(i, b) == s.update(i, b),
        forall|s: Seq<Option<V>>, i: int, v: Option<V>| 0 <= i < s.len() ==> (#[trigger] s.update(i, v)).len() == s.len(),
{
    assert forall|s: Seq<Option<V>>, i: int, a: Option<V>, b: Option<V>| #[trigger] s.update(i, a).update(i, b) == s.update(i, b) by { assert(s.update(i, a).update(i, b) =~= s.update(i, b)); }
    assert forall|s: Seq<Option<V>>| #[trigger] nsome(s, s.len() as int) >= 0 && nsome(s, s.len() as int) <= s.len() by { nsome_bounds(s, s.len() as int); }
    assert forall|s: Seq<Option<V>>, i: int| #![trigger nsome(s, s.len() as int), s[i]] 0 <= i < s.len() implies (s[i] is Some ==> nsome(s, s.len() as int) >= 1) && (s[i] is None ==> nsome(s, s.len() as int) <= s.len() - 1) by { nsome_bounds(s, s.len() as int); }
    assert forall|s: Seq<Option<V>>, i: int, j: int| #![trigger nsome(s, s.len() as int), s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && nsome(s, s.len() as int) <= 1 && s[i] is Some && s[j] is Some implies i == j by { nsome_bounds(s, s.len() as int); }
    assert forall|s: Seq<Option<V>>, i: int, v: Option<V>| #![trigger s.update(i, v)] 0 <= i < s.len() implies nsome(s.update(i, v), s.len() as int) == nsome(s, s.len() as int) - (if s[i] is Some { 1int } else { 0 }) + (if v is Some { 1int } else { 0 }) by { nsome_upd(s, i, v, s.len() as int); }
    assert forall|s: Seq<Option<V>>| #![trigger all_none(s)] all_none(s) implies nsome(s, s.len() as int) == 0 by { nsome_none(s, s.len() as int); }
}
pub trait OptionArray<Cardinality: Unsigned>: Sized {
    type V: VebTree;
    spec fn view(&self) -> Seq<Option<Self::V>>;
    spec fn wf(&self) -> bool;
    proof fn lemma_wf(&self) requires self.wf() ensures self@.len() == Cardinality::USIZE;
    fn create() -> (r: Self)
        ensures r.wf(), all_none(r@);
    fn get(&self, i: usize) -> (r: &Option<Self::V>)
        requires self.wf(), i < Cardinality::USIZE,
        ensures *r == self@[i as int];
    fn get_mut(&mut self, i: usize) -> (r: &mut Option<Self::V>)
        requires old(self).wf(), i < Cardinality::USIZE,
        ensures *r == old(self)@[i as int], final(self).wf(), final(self)@ == old(self)@.update(i as int, *final(r));
}
/// `Vec::resize_with`, `Vec::into_boxed_slice`: assumed contracts on dependencies
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T> [std::vec::Vec::<T, A>::resize_with] (v: &mut std::vec::Vec<T, A>, n: usize, f: F)
    requires f.requires(())
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { #[trigger] final(v)@[i] == old(v)@[i] } else { f.ensures((), final(v)@[i]) };
pub assume_specification<T, A: core::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
/// `generic_array::GenericArray`: assumed contracts on a dependency
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
pub struct GenericArray<T, C> { v: Vec<T>, c: PhantomData<C> }
impl<T, C> GenericArray<T, C> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) where T: PlainDefault, C: ArrayLength ensures r@.len() == C::USIZE, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == T::dv() { unimplemented!() }
}
impl<T, C> Index<usize> for GenericArray<T, C> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() }
}
impl<T, C> vstd::std_specs::core::IndexSpecImpl<usize> for GenericArray<T, C> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T, C> IndexMut<usize> for GenericArray<T, C> {
    #[verifier::external_body]
    fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
}
//@impl src/collection/array.rs OptionArray<Cardinality> for Box
//@subst create Option<_> => Option<V>
    open spec fn view(&self) -> Seq<Option<V>> { (**self)@ }
    open spec fn wf(&self) -> bool { (**self)@.len() == Cardinality::USIZE }
    proof fn lemma_wf(&self) { }
//@endimpl
//@impl src/collection/array.rs OptionArray<Cardinality> for GenericArray
    open spec fn view(&self) -> Seq<Option<V>> { GenericArray::view(self) }
    open spec fn wf(&self) -> bool { self@.len() == Cardinality::USIZE }
    proof fn lemma_wf(&self) { }
//@endimpl
//@struct src/collection/array.rs ArrayTreeCollection
//@impl src/collection/array.rs TreeCollection for ArrayTreeCollection
//@subst * ChildTree => A::V
    open spec fn laws() -> bool { ix_ok::<Hi>() }
    open spec fn wf(&self) -> bool {
        &&& self.array.wf()
        &&& self.count == nsome(self.array@, self.array@.len() as int)
        &&& self.count >= 1
        &&& forall|i: int| 0 <= i < self.array@.len() && (#[trigger] self.array@[i]) is Some ==> has_ix::<Hi>(i)
    }
    open spec fn view(&self) -> IMap<Hi, A::V> { IMap::new(|h: Hi| self.array@[h.ix()] is Some, |h: Hi| self.array@[h.ix()]->0) }
    proof fn lemma_wf(&self) {
        self.array.lemma_wf();
        nsome_bounds(self.array@, self.array@.len() as int);
        let i = choose|i: int| 0 <= i < self.array@.len() && (#[trigger] self.array@[i]) is Some;
        let h = choose|h: Hi| #[trigger] h.ix() == i;
        assert(self@.contains_key(h));
    }
//@prologue create proof { lemma_nsome::<A::V>(); lemma_arr::<Hi, A>(); }
//@prologue *self proof { lemma_nsome::<A::V>(); lemma_arr::<Hi, A>(); self.array.lemma_wf(); self.lemma_wf(); }
//@prologue remove_key,maybe_remove_key proof { lemma_rm(self); }
//@endimpl
proof fn lemma_arr<Hi: SizedVebKey, A: OptionArray<Hi::Cardinality>>() requires ix_ok::<Hi>()
    ensures forall|m: ArrayTreeCollection<Hi, A>| #[trigger] m.wf() ==> nonempty(m@),
       forall|a: A| #[trigger] a.wf() ==> a@.len() == <Hi::Cardinality as Unsigned>::USIZE,
{
    assert forall|m: ArrayTreeCollection<Hi, A>| #[trigger] m.wf() implies nonempty(m@) by { m.lemma_wf(); }
    assert forall|a: A| #[trigger] a.wf() implies a@.len() == <Hi::Cardinality as Unsigned>::USIZE by { a.lemma_wf(); }
}
/// what replacing one slot does to the collection
pub open spec fn rm_fact<Hi: SizedVebKey, A: OptionArray<Hi::Cardinality>>(c: ArrayTreeCollection<Hi, A>, d: ArrayTreeCollection<Hi, A>, h: Hi, t: Option<A::V>) -> bool {
    &&& d.count == 0 ==> t is None && forall|j: Hi| #[trigger] c@.contains_key(j) ==> j == h
    &&& d.count >= 1 ==> d.wf() && match t { None => d@ =~= c@.remove(h) && nonempty(d@), Some(t) => d@ =~= c@.insert(h, t) }
}
proof fn lemma_rm<Hi: SizedVebKey, A: OptionArray<Hi::Cardinality>>(c: ArrayTreeCollection<Hi, A>) requires ix_ok::<Hi>(), c.wf()
    ensures forall|a: A, h: Hi, t: Option<A::V>| #![trigger a.wf(), c.array@.update(h.ix(), t)]
        c@.contains_key(h) && a.wf() && a@ == c.array@.update(h.ix(), t) ==>
            rm_fact(c, ArrayTreeCollection { array: a, count: if t is None { (c.count - 1) as usize } else { c.count }, _marker: c._marker }, h, t),
{
    c.array.lemma_wf();
    lemma_nsome::<A::V>();
    lemma_arr::<Hi, A>();
    assert forall|a: A, h: Hi, t: Option<A::V>| #![trigger a.wf(), c.array@.update(h.ix(), t)]
        c@.contains_key(h) && a.wf() && a@ == c.array@.update(h.ix(), t) implies
            rm_fact(c, ArrayTreeCollection { array: a, count: if t is None { (c.count - 1) as usize } else { c.count }, _marker: c._marker }, h, t) by {
        let d = ArrayTreeCollection::<Hi, A> { array: a, count: if t is None { (c.count - 1) as usize } else { c.count }, _marker: c._marker };
        if d.count == 0 { assert forall|j: Hi| #[trigger] c@.contains_key(j) implies j == h by { assert(c.array@[j.ix()] is Some && c.array@[h.ix()] is Some); } }
        else { assert(d.wf()); }
    }
}
} // verus!
fn main() {}
