/// `alloc::collections::VecDeque` and `vec_entry`: assumed contracts on dependencies.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { x: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [T; N]) -> (r: Self) ensures r@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [T; N]) -> (r: Self) ensures r@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, i: usize, j: usize) requires i < old(self)@.len(), j < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int]) { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>) ensures
        old(self)@.len() > 0 ==> (r matches Some(t) && *t == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(t))), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn back_mut(&mut self) -> (r: Option<&mut T>) ensures
        old(self)@.len() > 0 ==> (r matches Some(t) && *t == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(t))), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures i < self@.len() ==> (r matches Some(t) && *t == self@[i as int]), i >= self@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>) ensures
        i < old(self)@.len() ==> (r matches Some(t) && *t == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(t))),
        i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures self@.len() > 0 ==> (r matches Some(t) && *t == self@[0]), self@.len() == 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures self@.len() > 0 ==> (r matches Some(t) && *t == self@[self@.len() - 1]), self@.len() == 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) ensures final(self)@ == old(self)@.insert(0, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>) ensures old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.remove(0), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Option<T>) ensures
        i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.remove(i as int),
        i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, i: usize) -> (r: VecEntry_<'_, T>) ensures
        match r {
            VecEntry_::Occupied(o) => i < old(self)@.len() && o.i == i && *o.d == *old(self) && *final(self) == *final(o.d),
            VecEntry_::Vacant(o) => i >= old(self)@.len() && o.i == i && *o.d == *old(self) && *final(self) == *final(o.d)
        } { unimplemented!() }
}
impl<T> Index<usize> for VecDeque<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for VecDeque<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T> IndexMut<usize> for VecDeque<T> {
    #[verifier::external_body]
    fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub enum VecEntry_<'a, T> { Occupied(OccupiedVecEntry_<'a, T>), Vacant(VacantVecEntry_<'a, T>) }
#[verifier::reject_recursive_types(T)]
pub struct OccupiedVecEntry_<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
#[verifier::reject_recursive_types(T)]
pub struct VacantVecEntry_<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
#[verifier::reject_recursive_types(T)]
pub struct Slot<'a, T> { pub i: usize, pub d: &'a mut VecDeque<T> }
impl<'a, T> OccupiedVecEntry_<'a, T> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T) requires self.i < (*old(self.d))@.len() ensures *r == (*old(self.d))@[self.i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut T) requires old(self).i < (*old(self).d)@.len()
        ensures *r == (*old(self).d)@[old(self).i as int], final(self).i == old(self).i, *final(final(self).d) == *final(old(self).d), (*final(self).d)@ == (*old(self).d)@.update(old(self).i as int, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut T) requires self.i < (*old(self.d))@.len()
        ensures *r == (*old(self.d))@[self.i as int], (*final(self.d))@ == (*old(self.d))@.update(self.i as int, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_replace(self) -> (r: (&'a usize, T, Slot<'a, T>)) requires self.i < (*old(self.d))@.len()
        ensures *r.0 == self.i, r.1 == (*old(self.d))@[self.i as int], r.2.i == self.i, *r.2.d == *old(self.d), *final(r.2.d) == *final(self.d) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: T) requires self.i < (*old(self.d))@.len()
        ensures r == (*old(self.d))@[self.i as int], (*final(self.d))@ == (*old(self.d))@.remove(self.i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self) -> (r: (usize, T)) requires self.i < (*old(self.d))@.len()
        ensures r.0 == self.i, r.1 == (*old(self.d))@[self.i as int], (*final(self.d))@ == (*old(self.d))@.remove(self.i as int) { unimplemented!() }
}
impl<'a, T> Slot<'a, T> {
    #[verifier::external_body]
    pub fn finish_replace<R>(self, out: (Option<T>, R)) -> (r: (VecEntry_<'a, T>, R))
        ensures r.1 == out.1,
            ({
                let after = match out.0 { Some(t) => (*old(self.d))@.update(self.i as int, t), None => (*old(self.d))@.remove(self.i as int) };
                match r.0 {
                    VecEntry_::Occupied(o) => o.i == self.i && (*o.d)@ == after && *final(o.d) == *final(self.d) && self.i < after.len(),
                    VecEntry_::Vacant(o) => o.i == self.i && (*o.d)@ == after && *final(o.d) == *final(self.d) && self.i >= after.len()
                }
            }) { unimplemented!() }
}
