pub trait Borrow<B: ?Sized> {
    spec fn bspec(&self) -> &B;
    fn borrow(&self) -> (r: &B) ensures r == self.bspec();
}
impl<T: ?Sized> Borrow<T> for T { open spec fn bspec(&self) -> &T { self } fn borrow(&self) -> &T { self } }
impl<'a, T: ?Sized> Borrow<T> for &'a T { open spec fn bspec(&self) -> &T { *self } fn borrow(&self) -> &T { &**self } }

/// the law assumed of a key type's `Clone`: the copy is the same value
pub open spec fn clone_ok<T: Clone>() -> bool { forall|a: &T, r: T| #[trigger] call_ensures(T::clone, (a,), r) ==> r == *a }
pub fn drop_<T>(x: T) {}
pub fn clone_<T: Clone>(x: &T) -> (r: T) ensures call_ensures(T::clone, (x,), r) { x.clone() }
