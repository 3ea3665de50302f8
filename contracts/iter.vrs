//@include prelude.vrs
//@enum src/iter.rs IterData
//@struct src/iter.rs Iter
pub open spec fn between<K: Ord, V>(m: IMap<K, V>, a: Option<K>, b: Option<K>) -> IMap<K, V> {
    m.restrict(ISet::new(|k: K| (a matches Some(x) ==> klt(x, k)) && (b matches Some(y) ==> klt(k, y))))
}
impl<'a, V: VebTree> IterData<'a, V> {
    pub open spec fn tree(&self) -> V { match self { IterData::Start(t) => **t, IterData::Front { prev_key, tree } => **tree, IterData::Back { prev_key, tree } => **tree, IterData::Both { front_key, back_key, tree } => **tree } }
    pub open spec fn front(&self) -> Option<V::Key> { match self { IterData::Front { prev_key, tree } => Some(prev_key.v()), IterData::Both { front_key, back_key, tree } => Some(front_key.v()), _ => None } }
    pub open spec fn back(&self) -> Option<V::Key> { match self { IterData::Back { prev_key, tree } => Some(prev_key.v()), IterData::Both { front_key, back_key, tree } => Some(back_key.v()), _ => None } }
    pub open spec fn rem(&self) -> IMap<V::Key, V::Value> { between(self.tree()@, self.front(), self.back()) }
}
impl<'a, V: VebTree> Iter<'a, V> {
    /// the entries not yet handed out
    pub open spec fn rem(&self) -> IMap<V::Key, V::Value> { match self.data { None => IMap::empty(), Some(d) => d.rem() } }
    pub open spec fn wf(&self) -> bool {
        self.data matches Some(d) ==> {
            &&& d.tree().wf()
            &&& fin(d.tree()@) && cnt(d.tree()@) <= usize::MAX
            &&& d.front() matches Some(f) ==> d.tree()@.contains_key(f)
            &&& d.back() matches Some(b) ==> d.tree()@.contains_key(b)
            &&& d.front() matches Some(f) ==> (d.back() matches Some(b) ==> klt(f, b))
            &&& self.emitted + cnt(d.rem()) == cnt(d.tree()@)
        }
    }
}
pub proof fn lemma_between<K: Ord, V>(m: IMap<K, V>) requires lawful::<K>(), fin(m) ensures
    forall|a: Option<K>, b: Option<K>| fin(#[trigger] between(m, a, b)),
    between(m, None, None) == m,
    forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b).contains_key(k)] #![trigger between(m, a, b), m.contains_key(k)] between(m, a, b).contains_key(k) <==> m.contains_key(k) && (a matches Some(x) ==> klt(x, k)) && (b matches Some(y) ==> klt(k, y)),
    forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b)[k]] between(m, a, b).contains_key(k) ==> between(m, a, b)[k] == m[k],
    forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b), between(m, Some(k), b)] is_min(between(m, a, b), k) ==> between(m, Some(k), b) == between(m, a, b).remove(k) && cnt(between(m, Some(k), b)) == cnt(between(m, a, b)) - 1,
    forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b), between(m, a, Some(k))] is_max(between(m, a, b), k) ==> between(m, a, Some(k)) == between(m, a, b).remove(k) && cnt(between(m, a, Some(k))) == cnt(between(m, a, b)) - 1,
{
    assert(between(m, None, None) =~= m);
    assert forall|a: Option<K>, b: Option<K>| fin(#[trigger] between(m, a, b)) by { assert(between(m, a, b).dom() =~= m.dom().intersect(ISet::new(|k: K| (a matches Some(x) ==> klt(x, k)) && (b matches Some(y) ==> klt(k, y))))); }
    assert forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b), between(m, Some(k), b)] is_min(between(m, a, b), k) implies between(m, Some(k), b) == between(m, a, b).remove(k) && cnt(between(m, Some(k), b)) == cnt(between(m, a, b)) - 1 by {
        assert(between(m, Some(k), b) =~= between(m, a, b).remove(k)); cnt_remove(between(m, a, b), k); }
    assert forall|a: Option<K>, b: Option<K>, k: K| #![trigger between(m, a, b), between(m, a, Some(k))] is_max(between(m, a, b), k) implies between(m, a, Some(k)) == between(m, a, b).remove(k) && cnt(between(m, a, Some(k))) == cnt(between(m, a, b)) - 1 by {
        assert(between(m, a, Some(k)) =~= between(m, a, b).remove(k)); cnt_remove(between(m, a, b), k); }
}
pub proof fn lemma_iter<V: VebTree>(m: IMap<V::Key, V::Value>) requires lawful::<V::Key>(), fin(m) ensures
    fin(IMap::<V::Key, V::Value>::empty()) && cnt(IMap::<V::Key, V::Value>::empty()) == 0,
    forall|k: V::Key| m.contains_key(k) ==> cnt(m) >= 1,
{ cnt_empty::<V::Key, V::Value>(); if exists|k: V::Key| m.contains_key(k) { let k = choose|k: V::Key| m.contains_key(k); cnt_pos(m, k); } }
//@inherent src/iter.rs From<&'aV> for Iter
//@contract from -> r
    requires V::laws(), v.wf(), fin(v@), cnt(v@) <= usize::MAX
    ensures r.wf(), r.rem() == v@
//@end
//@prologue from proof { v.lemma_wf(); lemma_between(v@); }
//@endimpl
//@inherent src/iter.rs Iterator for Iter
//@subst hdr Self :: Item => (MaybeBorrowed<'a, V::Key>, &'a V::Value)
//@contract next -> r
    requires V::laws(), clone_ok::<V::Key>(), old(self).wf()
    ensures final(self).wf(),
        match r {
            Some(kv) => is_min(old(self).rem(), kv.0.v()) && *kv.1 == old(self).rem()[kv.0.v()] && final(self).rem() == old(self).rem().remove(kv.0.v()),
            None => is_empty(old(self).rem()) && is_empty(final(self).rem()),
        }
//@end
//@optcontract last -> r
    requires V::laws(), clone_ok::<V::Key>(), self.wf()
    ensures match r { Some(kv) => is_max(self.rem(), kv.0.v()) && *kv.1 == self.rem()[kv.0.v()], None => is_empty(self.rem()) }
//@end
//@optcontract count -> r
    requires V::laws(), clone_ok::<V::Key>(), self.wf()
    ensures fin(self.rem()), r == cnt(self.rem())
//@end
//@contract size_hint -> r
    requires V::laws(), self.wf()
    ensures fin(self.rem()), r.0 <= cnt(self.rem()), r.1 matches Some(u) ==> cnt(self.rem()) <= u,
        V::exact() ==> r.0 == cnt(self.rem()) && r.1 == Some(r.0)
//@end
//@prologue next proof { if old(self).data is Some { let d = old(self).data->0; d.tree().lemma_wf(); lemma_between(d.tree()@); lemma_iter::<V>(d.tree()@); lemma_iter::<V>(d.rem()); } }
//@prologue last,count proof { if self.data is Some { let d = self.data->0; d.tree().lemma_wf(); lemma_between(d.tree()@); lemma_iter::<V>(d.tree()@); lemma_iter::<V>(d.rem()); } cnt_empty::<V::Key, V::Value>(); }
//@prologue size_hint proof { if self.data is Some { let d = self.data->0; d.tree().lemma_wf(); lemma_between(d.tree()@); } cnt_empty::<V::Key, V::Value>(); }
//@endimpl
//@inherent src/iter.rs DoubleEndedIterator for Iter
//@subst hdr Self :: Item => (MaybeBorrowed<'a, V::Key>, &'a V::Value)
//@contract next_back -> r
    requires V::laws(), clone_ok::<V::Key>(), old(self).wf()
    ensures final(self).wf(),
        match r {
            Some(kv) => is_max(old(self).rem(), kv.0.v()) && *kv.1 == old(self).rem()[kv.0.v()] && final(self).rem() == old(self).rem().remove(kv.0.v()),
            None => is_empty(old(self).rem()) && is_empty(final(self).rem()),
        }
//@end
//@prologue next_back proof { if old(self).data is Some { let d = old(self).data->0; d.tree().lemma_wf(); lemma_between(d.tree()@); lemma_iter::<V>(d.tree()@); lemma_iter::<V>(d.rem()); } }
//@endimpl
} // verus!
fn main() {}
