//@include prelude.vrs
//@unit bytemap.vrs
//@unit array.vrs
//@unit hash.vrs
// ---- `remove_key` on a key without a tree: documented to panic, so the body must not come to its end (E23)
pub trait Must { type T; spec fn is(self, t: Self::T) -> bool; fn must_(self) -> (r: Self::T) ensures self.is(r); }
impl<T> Must for Option<T> { type T = T; open spec fn is(self, t: T) -> bool { self == Some(t) } #[verifier::external_body] fn must_(self) -> T { unimplemented!() } }
impl<T, E> Must for Result<T, E> { type T = T; open spec fn is(self, t: T) -> bool { self == Ok::<T, E>(t) } #[verifier::external_body] fn must_(self) -> T { unimplemented!() } }
#[verifier::external_body]
pub fn must_hold_(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn diverge_<T>() -> (r: T) ensures false { unimplemented!() }
pub open spec fn any_removal<T: VebTree, R: FnOnce(T) -> RemoveResult<T>>(r: R) -> bool { forall|t: T| #[trigger] r.requires((t,)) }
pub trait RemoveAbsent: TreeCollection {
    fn remove_key_absent<Q, R>(self, h: Q, r: R) -> (ret: TreeRemoveResult<Self>)
    where
        Q: Borrow<Self::Hi>,
        R: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>
        requires Self::laws(), self.wf(), !self@.contains_key(*h.bspec()), any_removal::<Self::Tree, R>(r),
        ensures false;
}
//@impl src/bitset/map/mod.rs TreeCollection for ByteMap
//@partial
//@only remove_key
//@endimpl
//@impl src/collection/array.rs TreeCollection for ArrayTreeCollection
//@partial
//@only remove_key
//@endimpl
//@impl src/collection/hash.rs TreeCollection for HashMap
//@partial
//@only remove_key
//@endimpl
//@impl src/collection/mod.rs TreeCollection for Box
//@partial
//@only remove_key
//@header impl<T: RemoveAbsent> RemoveAbsent for Box<T>
//@subst remove_key . remove_key => . remove_key_absent
//@subst remove_key TreeCollection :: remove_key => RemoveAbsent :: remove_key_absent
//@subst remove_key T :: remove_key => T :: remove_key_absent
//@endimpl
} // verus!
fn main() {}
