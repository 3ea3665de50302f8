//@include prelude.vrs
//@include nonzero.vrs
//@include btree.vrs
//@struct src/lib.rs SizedVebTree
//@exconst src/lib.rs ONE ensures ONE.v() == 1
/// Assumption: a tree that fits in memory holds fewer than usize::MAX elements.
#[verifier::external_body]
pub proof fn ax_fits<V: VebTree>(t: &SizedVebTree<V>) ensures t.size.v() < usize::MAX { }
pub proof fn lemma_sized<V: VebTree>() requires V::laws() ensures
    forall|t: V| #![trigger t.wf()] t.wf() ==> (exists|k: V::Key| is_min(t@, k)) && (exists|k: V::Key| is_max(t@, k)) && lawful::<V::Key>()
        && (fin(t@) ==> cnt(t@) >= 1 && (!(single(t@)) ==> cnt(t@) >= 2))
        && ((single(t@)) ==> fin(t@) && cnt(t@) == 1)
        && (fin(t@) && cnt(t@) == 1 ==> (single(t@))),
    forall|m: IMap<V::Key, V::Value>, k: V::Key, v: V::Value| #![trigger m.insert(k, v)] fin(m) ==> fin(m.insert(k, v)) && cnt(m.insert(k, v)) == cnt(m) + if m.contains_key(k) { 0int } else { 1int },
    forall|m: IMap<V::Key, V::Value>, k: V::Key| #![trigger m.remove(k)] fin(m) ==> fin(m.remove(k)) && cnt(m.remove(k)) == cnt(m) - if m.contains_key(k) { 1int } else { 0int },
    fin(IMap::<V::Key, V::Value>::empty()) && cnt(IMap::<V::Key, V::Value>::empty()) == 0,
{
    assert forall|t: V| #![trigger t.wf()] t.wf() implies (exists|k: V::Key| is_min(t@, k)) && (exists|k: V::Key| is_max(t@, k)) && lawful::<V::Key>()
        && (fin(t@) ==> cnt(t@) >= 1 && (!(single(t@)) ==> cnt(t@) >= 2))
        && ((single(t@)) ==> fin(t@) && cnt(t@) == 1)
        && (fin(t@) && cnt(t@) == 1 ==> (single(t@))) by { t.lemma_wf(); lemma_hint(t@); }
    assert forall|m: IMap<V::Key, V::Value>, k: V::Key, v: V::Value| #![trigger m.insert(k, v)] fin(m) implies fin(m.insert(k, v)) && cnt(m.insert(k, v)) == cnt(m) + if m.contains_key(k) { 0int } else { 1int } by { cnt_insert(m, k, v); }
    assert forall|m: IMap<V::Key, V::Value>, k: V::Key| #![trigger m.remove(k)] fin(m) implies fin(m.remove(k)) && cnt(m.remove(k)) == cnt(m) - if m.contains_key(k) { 1int } else { 0int } by { cnt_remove(m, k); }
    cnt_empty::<V::Key, V::Value>();
}
//@impl src/lib.rs SizedVebTree
//@contract len -> r
    requires V::laws(), self.wf()
    ensures fin(self@), r.v() == cnt(self@)
//@end
//@header impl<V: VebTree> SizedVebTree<V>
//@endimpl
//@impl src/lib.rs VebTree for SizedVebTree
//@default src/lib.rs VebTree len_hint
    open spec fn exact() -> bool { true }
    open spec fn laws() -> bool { V::laws() }
    open spec fn wf(&self) -> bool { self.tree.wf() && fin(self.tree@) && self.size.v() == cnt(self.tree@) }
    open spec fn view(&self) -> IMap<V::Key, V::Value> { self.tree@ }
    proof fn lemma_wf(&self) { self.tree.lemma_wf(); assert(self@ == self.tree@); }
//@prologue * proof { lemma_sized::<V>(); }
//@prologue is_monad proof { assert(self@ == self.tree@); }
//@prologue insert proof { ax_fits(old(self)); }
//@endimpl
//@impl src/lib.rs VebTree for Box
//@default src/lib.rs VebTree len_hint
    open spec fn exact() -> bool { V::exact() }
    open spec fn laws() -> bool { V::laws() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn view(&self) -> IMap<V::Key, V::Value> { (**self)@ }
    proof fn lemma_wf(&self) { (**self).lemma_wf(); assert(self@ == (**self)@); }
//@prologue is_monad proof { assert(self@ == (**self)@); }
//@endimpl
//@impl src/lib.rs VebTree for BTreeMap
//@default src/lib.rs VebTree len_hint
    open spec fn exact() -> bool { true }
    open spec fn laws() -> bool { lawful::<K>() }
    open spec fn wf(&self) -> bool { nonempty(self@) }
    open spec fn view(&self) -> IMap<K, V> { BTreeMap::view(self) }
    proof fn lemma_wf(&self) { self.lemma_fin(); lemma_has_min(BTreeMap::view(self)); assert(VebTree::view(self) == BTreeMap::view(self)); }
//@prologue from_monad proof { lemma_bt::<K, V>(); }
//@prologue *self proof { lemma_bt::<K, V>(); self.lemma_fin(); self.lemma_wf(); lemma_hint(self@); }
//@endimpl
pub proof fn lemma_bt<K: Ord, V>() ensures
    forall|m: IMap<K, V>, k: K, v: V| nonempty(#[trigger] m.insert(k, v)),
    forall|m: IMap<K, V>, k: K| !nonempty(#[trigger] m.remove(k)) ==> forall|j: K| #[trigger] m.contains_key(j) ==> j == k,
    lawful::<K>() ==> forall|m: IMap<K, V>, k: K| is_min(m, k) && is_max(m, k) ==> !nonempty(#[trigger] m.remove(k)),
    forall|m: IMap<K, V>, a: Bound<&K>, b: Bound<&K>, k: K| #![trigger sub_map(m, a, b).contains_key(k)] #![trigger sub_map(m, a, b), m.contains_key(k)] sub_map(m, a, b).contains_key(k) <==> m.contains_key(k) && above(a, k) && below(b, k),
    forall|m: IMap<K, V>, a: Bound<&K>, b: Bound<&K>, k: K| #![trigger sub_map(m, a, b)[k]] sub_map(m, a, b).contains_key(k) ==> sub_map(m, a, b)[k] == m[k],
{
    assert forall|m: IMap<K, V>, k: K, v: V| nonempty(#[trigger] m.insert(k, v)) by { assert(m.insert(k, v).contains_key(k)); }
    assert forall|m: IMap<K, V>, k: K| !nonempty(#[trigger] m.remove(k)) implies forall|j: K| #[trigger] m.contains_key(j) ==> j == k by { assert forall|j: K| #[trigger] m.contains_key(j) implies j == k by { assert(m.remove(k).contains_key(j) <==> j != k); } }
}
} // verus!
fn main() {}
