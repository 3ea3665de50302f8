/// `alloc::collections::BTreeMap`, its iterators and ranges: assumed contracts on a dependency.
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub struct RangeInclusive_<T> { pub a: T, pub b: T }
pub struct RangeTo_<T> { pub b: T }
pub struct RangeToInclusive_<T> { pub b: T }
pub struct RangeFrom_<T> { pub a: T }
pub struct Range_<T> { pub a: T, pub b: T }
pub struct RangeFull_ { }
pub fn range_inclusive_<T>(a: T, b: T) -> (r: RangeInclusive_<T>) ensures r == (RangeInclusive_ { a, b }) { RangeInclusive_ { a, b } }
pub fn range_to_<T>(b: T) -> (r: RangeTo_<T>) ensures r == (RangeTo_ { b }) { RangeTo_ { b } }
pub fn range_to_inclusive_<T>(b: T) -> (r: RangeToInclusive_<T>) ensures r == (RangeToInclusive_ { b }) { RangeToInclusive_ { b } }
pub fn range_from_<T>(a: T) -> (r: RangeFrom_<T>) ensures r == (RangeFrom_ { a }) { RangeFrom_ { a } }
pub fn range_<T>(a: T, b: T) -> (r: Range_<T>) ensures r == (Range_ { a, b }) { Range_ { a, b } }
pub fn range_full_() -> (r: RangeFull_) { RangeFull_ { } }
pub open spec fn above<K: Ord>(b: Bound<&K>, k: K) -> bool { match b { Bound::Included(x) => klt(*x, k) || *x == k, Bound::Excluded(x) => klt(*x, k), Bound::Unbounded => true } }
pub open spec fn below<K: Ord>(b: Bound<&K>, k: K) -> bool { match b { Bound::Included(x) => klt(k, *x) || *x == k, Bound::Excluded(x) => klt(k, *x), Bound::Unbounded => true } }
/// the range does not make `BTreeMap::range` panic
pub open spec fn range_ok<K: Ord>(a: Bound<&K>, b: Bound<&K>) -> bool {
    match (a, b) {
        (Bound::Unbounded, _) => true, (_, Bound::Unbounded) => true,
        (Bound::Excluded(x), Bound::Excluded(y)) => klt(*x, *y),
        (Bound::Excluded(x), Bound::Included(y)) => klt(*x, *y) || *x == *y,
        (Bound::Included(x), Bound::Excluded(y)) => klt(*x, *y) || *x == *y,
        (Bound::Included(x), Bound::Included(y)) => klt(*x, *y) || *x == *y,
    }
}
pub trait RangeBounds<K> { spec fn lo_(&self) -> Bound<&K>; spec fn hi_(&self) -> Bound<&K>; }
impl<'b, K> RangeBounds<K> for RangeInclusive_<&'b K> { open spec fn lo_(&self) -> Bound<&K> { Bound::Included(self.a) } open spec fn hi_(&self) -> Bound<&K> { Bound::Included(self.b) } }
impl<'b, K> RangeBounds<K> for RangeTo_<&'b K> { open spec fn lo_(&self) -> Bound<&K> { Bound::Unbounded } open spec fn hi_(&self) -> Bound<&K> { Bound::Excluded(self.b) } }
impl<'b, K> RangeBounds<K> for RangeToInclusive_<&'b K> { open spec fn lo_(&self) -> Bound<&K> { Bound::Unbounded } open spec fn hi_(&self) -> Bound<&K> { Bound::Included(self.b) } }
impl<'b, K> RangeBounds<K> for RangeFrom_<&'b K> { open spec fn lo_(&self) -> Bound<&K> { Bound::Included(self.a) } open spec fn hi_(&self) -> Bound<&K> { Bound::Unbounded } }
impl<'b, K> RangeBounds<K> for Range_<&'b K> { open spec fn lo_(&self) -> Bound<&K> { Bound::Included(self.a) } open spec fn hi_(&self) -> Bound<&K> { Bound::Excluded(self.b) } }
impl<K> RangeBounds<K> for RangeFull_ { open spec fn lo_(&self) -> Bound<&K> { Bound::Unbounded } open spec fn hi_(&self) -> Bound<&K> { Bound::Unbounded } }
impl<'b, K> RangeBounds<K> for (Bound<&'b K>, Bound<&'b K>) { open spec fn lo_(&self) -> Bound<&K> { self.0 } open spec fn hi_(&self) -> Bound<&K> { self.1 } }
pub open spec fn sub_map<K: Ord, V>(m: IMap<K, V>, a: Bound<&K>, b: Bound<&K>) -> IMap<K, V> { m.restrict(ISet::new(|k: K| above(a, k) && below(b, k))) }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: Ord, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub proof fn lemma_fin(&self) ensures fin(self@) { }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == cnt(self@), fin(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == !nonempty(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) requires lawful::<K>() ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) requires lawful::<K>() ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) requires lawful::<K>() ensures match r { Some(kv) => self@.contains_key(*k) && *kv.0 == *k && *kv.1 == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) requires lawful::<K>() ensures
        match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) requires lawful::<K>() ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) requires lawful::<K>() ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>) requires lawful::<K>() ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(K, V)>) requires lawful::<K>() ensures
        match r { Some(kv) => is_min(old(self)@, kv.0) && kv.1 == old(self)@[kv.0] && final(self)@ == old(self)@.remove(kv.0), None => !nonempty(old(self)@) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_last(&mut self) -> (r: Option<(K, V)>) requires lawful::<K>() ensures
        match r { Some(kv) => is_max(old(self)@, kv.0) && kv.1 == old(self)@[kv.0] && final(self)@ == old(self)@.remove(kv.0), None => !nonempty(old(self)@) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&K, &V)>) requires lawful::<K>() ensures
        match r { Some(kv) => is_min(self@, *kv.0) && *kv.1 == self@[*kv.0], None => !nonempty(self@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&K, &V)>) requires lawful::<K>() ensures
        match r { Some(kv) => is_max(self@, *kv.0) && *kv.1 == self@[*kv.0], None => !nonempty(self@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: BIter<'_, K, V>) ensures r.rem() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn range<R: RangeBounds<K>>(&self, b: R) -> (r: BIter<'_, K, V>) requires lawful::<K>(), range_ok(b.lo_(), b.hi_()) ensures r.rem() == sub_map(self@, b.lo_(), b.hi_()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: BIterMut<'_, K, V>) ensures r.rem@ == old(self)@, *r.d == *old(self), *final(self) == *final(r.d) { unimplemented!() }
    #[verifier::external_body]
    pub fn range_mut<R: RangeBounds<K>>(&mut self, b: R) -> (r: BIterMut<'_, K, V>) requires lawful::<K>(), range_ok(b.lo_(), b.hi_()) ensures r.rem@ == sub_map(old(self)@, b.lo_(), b.hi_()), *r.d == *old(self), *final(self) == *final(r.d) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: BIntoIter<K, V>) ensures r.rem() == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BIter<'a, K, V> { k: Vec<&'a K>, v: Vec<&'a V> }
impl<'a, K: Ord, V> BIter<'a, K, V> {
    pub uninterp spec fn rem(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) requires lawful::<K>() ensures match r { Some(kv) => is_min(old(self).rem(), *kv.0) && *kv.1 == old(self).rem()[*kv.0] && final(self).rem() == old(self).rem().remove(*kv.0), None => !nonempty(old(self).rem()) && final(self).rem() == old(self).rem() } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(&'a K, &'a V)>) requires lawful::<K>() ensures match r { Some(kv) => is_max(old(self).rem(), *kv.0) && *kv.1 == old(self).rem()[*kv.0] && final(self).rem() == old(self).rem().remove(*kv.0), None => !nonempty(old(self).rem()) && final(self).rem() == old(self).rem() } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BIntoIter<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: Ord, V> BIntoIter<K, V> {
    pub uninterp spec fn rem(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>) requires lawful::<K>() ensures match r { Some(kv) => is_min(old(self).rem(), kv.0) && kv.1 == old(self).rem()[kv.0] && final(self).rem() == old(self).rem().remove(kv.0), None => !nonempty(old(self).rem()) && final(self).rem() == old(self).rem() } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(K, V)>) requires lawful::<K>() ensures match r { Some(kv) => is_max(old(self).rem(), kv.0) && kv.1 == old(self).rem()[kv.0] && final(self).rem() == old(self).rem().remove(kv.0), None => !nonempty(old(self).rem()) && final(self).rem() == old(self).rem() } { unimplemented!() }
}
/// yields each remaining key once; `d` is the map, already carrying the final values of the references handed out
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BIterMut<'a, K, V> { pub rem: Ghost<IMap<K, V>>, pub d: &'a mut BTreeMap<K, V> }
impl<'a, K: Ord, V> BIterMut<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a mut V)>) requires lawful::<K>() ensures *final(final(self).d) == *final(old(self).d), match r {
        Some(kv) => is_min(old(self).rem@, *kv.0) && *kv.1 == old(self).rem@[*kv.0] && final(self).rem@ == old(self).rem@.remove(*kv.0) && (*final(self).d)@ == (*old(self).d)@.insert(*kv.0, *final(kv.1)),
        None => !nonempty(old(self).rem@) && final(self).rem@ == old(self).rem@ && (*final(self).d)@ == (*old(self).d)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(&'a K, &'a mut V)>) requires lawful::<K>() ensures *final(final(self).d) == *final(old(self).d), match r {
        Some(kv) => is_max(old(self).rem@, *kv.0) && *kv.1 == old(self).rem@[*kv.0] && final(self).rem@ == old(self).rem@.remove(*kv.0) && (*final(self).d)@ == (*old(self).d)@.insert(*kv.0, *final(kv.1)),
        None => !nonempty(old(self).rem@) && final(self).rem@ == old(self).rem@ && (*final(self).d)@ == (*old(self).d)@ } { unimplemented!() }
}
/// a finite non-empty map over a total order has a least and a greatest key
pub proof fn lemma_has_min<K: Ord, V>(m: IMap<K, V>) requires lawful::<K>(), fin(m), nonempty(m) ensures exists|k: K| is_min(m, k), exists|k: K| is_max(m, k) decreases cnt(m)
{
    let k = choose|k: K| #[trigger] m.contains_key(k);
    let m2 = m.remove(k);
    cnt_remove(m, k);
    cnt_pos(m, k);
    if nonempty(m2) {
        lemma_has_min(m2);
        let a = choose|a: K| is_min(m2, a);
        let b = choose|b: K| is_max(m2, b);
        assert(m2.contains_key(a) && m2.contains_key(b));
        assert(klt(a, k) || klt(k, a));
        assert(klt(b, k) || klt(k, b));
        let a1 = if klt(a, k) { a } else { k };
        let b1 = if klt(k, b) { b } else { k };
        assert forall|j: K| #[trigger] m.contains_key(j) implies (j == a1 || klt(a1, j)) && (j == b1 || klt(j, b1)) by { if j != k { assert(m2.contains_key(j)); } }
        assert(is_min(m, a1)); assert(is_max(m, b1));
    } else {
        assert forall|j: K| #[trigger] m.contains_key(j) implies j == k by { if j != k { assert(m2.contains_key(j)); } }
        assert(is_min(m, k)); assert(is_max(m, k));
    }
}
