/// `hashbrown::HashMap` and its raw-entry API: assumed contracts on a dependency.
/// `hash_ok` is the law the documentation of HashMap puts on its keys: `Eq` agrees with equality
/// of values and `Hash` agrees with `Eq`.
pub trait Hash { }
pub trait BuildHasher { }
pub uninterp spec fn hash_ok<K>() -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S> { k: Vec<K>, v: Vec<V>, s: PhantomData<S> }
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>) -> IMap<K, V> decreases s.len() { if s.len() == 0 { IMap::empty() } else { pairs_map(s.drop_last()).insert(s.last().0, s.last().1) } }
pub proof fn lemma_pairs<K, V>() ensures forall|s: Seq<(K, V)>| #![trigger pairs_map(s)] s.len() == 1 ==> pairs_map(s) == IMap::<K, V>::empty().insert(s[0].0, s[0].1)
{ assert forall|s: Seq<(K, V)>| #![trigger pairs_map(s)] s.len() == 1 implies pairs_map(s) == IMap::<K, V>::empty().insert(s[0].0, s[0].1) by { reveal_with_fuel(pairs_map, 3); assert(s.drop_last().len() == 0); } }
impl<K, V, S> HashMap<K, V, S> {
    pub uninterp spec fn view(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub proof fn lemma_fin(&self) ensures fin(self@) { }
    #[verifier::external_body]
    pub fn default() -> (r: Self) where S: Default ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self) requires hash_ok::<K>() ensures r@ == pairs_map(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == cnt(self@), fin(self@), r == 0 <==> !nonempty(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == !nonempty(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) requires hash_ok::<K>() ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) requires hash_ok::<K>() ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) requires hash_ok::<K>() ensures
        match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) requires hash_ok::<K>() ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) requires hash_ok::<K>() ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_hasher(h: S) -> (r: Self) ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: S) -> (r: Self) ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) requires hash_ok::<K>() ensures match r { Some(kv) => self@.contains_key(*k) && *kv.0 == *k && *kv.1 == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>) requires hash_ok::<K>() ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_entry(&self) -> (r: RawEntryBuilder<'_, K, V, S>) ensures *r.d == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V, S>) requires hash_ok::<K>() ensures
        match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.k@ == k && *o.d == *old(self) && *final(self) == *final(o.d),
            Entry::Vacant(o) => !old(self)@.contains_key(k) && o.k@ == k && *o.d == *old(self) && *final(self) == *final(o.d),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_entry_mut(&mut self) -> (r: RawEntryBuilderMut<'_, K, V, S>) ensures *r.d == *old(self), *final(self) == *final(r.d) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawEntryBuilderMut<'a, K, V, S> { pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> RawEntryBuilderMut<'a, K, V, S> {
    #[verifier::external_body]
    pub fn from_key(self, k: &K) -> (r: RawEntryMut<'a, K, V, S>) requires hash_ok::<K>() ensures
        match r {
            RawEntryMut::Occupied(o) => (*old(self.d))@.contains_key(*k) && o.k@ == *k && *o.d == *old(self.d) && *final(self.d) == *final(o.d),
            RawEntryMut::Vacant(o) => !(*old(self.d))@.contains_key(*k) && o.k@ == *k && *o.d == *old(self.d) && *final(self.d) == *final(o.d),
        } { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub enum RawEntryMut<'a, K, V, S> { Occupied(RawOccupiedEntryMut<'a, K, V, S>), Vacant(RawVacantEntryMut<'a, K, V, S>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawOccupiedEntryMut<'a, K, V, S> { pub k: Ghost<K>, pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawVacantEntryMut<'a, K, V, S> { pub k: Ghost<K>, pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawSlot<'a, K, V, S> { pub k: Ghost<K>, pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> RawVacantEntryMut<'a, K, V, S> {
    /// the key handed in must be the key the entry was looked up with (documented as the caller's duty)
    #[verifier::external_body]
    pub fn insert(self, k: K, v: V) -> (r: (&'a mut K, &'a mut V)) requires hash_ok::<K>(), k == self.k@
        ensures *r.0 == k, *r.1 == v, *final(r.0) == k ==> (*final(self.d))@ == (*old(self.d))@.insert(k, *final(r.1)) { unimplemented!() }
}
impl<'a, K, V, S> RawOccupiedEntryMut<'a, K, V, S> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) requires (*old(self.d))@.contains_key(self.k@) ensures *r == (*old(self.d))@[self.k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V) requires (*old(self).d)@.contains_key(old(self).k@)
        ensures *r == (*old(self).d)@[old(self).k@], final(self).k == old(self).k, *final(final(self).d) == *final(old(self).d), (*final(self).d)@ == (*old(self).d)@.insert(old(self).k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) requires (*old(self.d))@.contains_key(self.k@)
        ensures *r == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.insert(self.k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V) requires (*old(self.d))@.contains_key(self.k@)
        ensures r == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.remove(self.k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V) requires (*old(self).d)@.contains_key(old(self).k@)
        ensures r == (*old(self).d)@[old(self).k@], final(self).k == old(self).k, *final(final(self).d) == *final(old(self).d), (*final(self).d)@ == (*old(self).d)@.insert(old(self).k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (K, V)) requires (*old(self.d))@.contains_key(self.k@)
        ensures r.0 == self.k@, r.1 == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.remove(self.k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_replace(self) -> (r: (&'a K, V, RawSlot<'a, K, V, S>)) requires (*old(self.d))@.contains_key(self.k@)
        ensures *r.0 == self.k@, r.1 == (*old(self.d))@[self.k@], r.2.k == self.k, *r.2.d == *old(self.d), *final(r.2.d) == *final(self.d) { unimplemented!() }
}
impl<'a, K, V, S> RawSlot<'a, K, V, S> {
    #[verifier::external_body]
    pub fn finish_replace(self, out: Option<V>) -> (r: RawEntryMut<'a, K, V, S>)
        ensures match out {
            Some(v) => r matches RawEntryMut::Occupied(o) && o.k == self.k && (*o.d)@ == (*old(self.d))@.insert(self.k@, v) && *final(o.d) == *final(self.d),
            None => r matches RawEntryMut::Vacant(o) && o.k == self.k && (*o.d)@ == (*old(self.d))@.remove(self.k@) && *final(o.d) == *final(self.d),
        } { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct RawEntryBuilder<'a, K, V, S> { pub d: &'a HashMap<K, V, S> }
impl<'a, K, V, S> RawEntryBuilder<'a, K, V, S> {
    #[verifier::external_body]
    pub fn from_key(self, k: &K) -> (r: Option<(&'a K, &'a V)>) requires hash_ok::<K>() ensures match r { Some(kv) => self.d@.contains_key(*k) && *kv.0 == *k && *kv.1 == self.d@[*k], None => !self.d@.contains_key(*k) } { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub enum Entry<'a, K, V, S> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct OccupiedEntry<'a, K, V, S> { pub k: Ghost<K>, pub d: &'a mut HashMap<K, V, S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct VacantEntry<'a, K, V, S> { pub k: Ghost<K>, pub d: &'a mut HashMap<K, V, S> }
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) requires (*old(self.d))@.contains_key(self.k@) ensures *r == (*old(self.d))@[self.k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V) requires (*old(self).d)@.contains_key(old(self).k@)
        ensures *r == (*old(self).d)@[old(self).k@], final(self).k == old(self).k, *final(final(self).d) == *final(old(self).d), (*final(self).d)@ == (*old(self).d)@.insert(old(self).k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) requires (*old(self.d))@.contains_key(self.k@)
        ensures *r == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.insert(self.k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V) requires (*old(self.d))@.contains_key(self.k@)
        ensures r == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.remove(self.k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V) requires (*old(self).d)@.contains_key(old(self).k@)
        ensures r == (*old(self).d)@[old(self).k@], final(self).k == old(self).k, *final(final(self).d) == *final(old(self).d), (*final(self).d)@ == (*old(self).d)@.insert(old(self).k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (K, V)) requires (*old(self.d))@.contains_key(self.k@)
        ensures r.0 == self.k@, r.1 == (*old(self.d))@[self.k@], (*final(self.d))@ == (*old(self.d))@.remove(self.k@) { unimplemented!() }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_key(self) -> (r: K) ensures r == self.k@, *final(self.d) == *old(self.d) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, (*final(self.d))@ == (*old(self.d))@.insert(self.k@, *final(r)) { unimplemented!() }
}
