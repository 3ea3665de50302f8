//@enum src/key.rs MaybeBorrowed noclone
impl<'a, B> MaybeBorrowed<'a, B> {
    pub open spec fn v(&self) -> B { match self { MaybeBorrowed::Borrowed(b) => **b, MaybeBorrowed::Owned(b) => *b } }
}
impl<'a, B> vstd::std_specs::convert::FromSpecImpl<B> for MaybeBorrowed<'a, B> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: B) -> Self { arbitrary() } }
impl<'a, B> vstd::std_specs::convert::FromSpecImpl<&'a B> for MaybeBorrowed<'a, B> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a B) -> Self { arbitrary() } }
//@impl src/key.rs From<B> for MaybeBorrowed
//@contract from -> r
      ensures r.v() == b
//@end
//@endimpl
//@impl src/key.rs From<&'aB> for MaybeBorrowed
//@contract from -> r
      ensures r.v() == b
//@end
//@endimpl
//@impl src/key.rs Deref for MaybeBorrowed
//@header impl<'a, B> core::ops::Deref for MaybeBorrowed<'a, B>
//@contract deref -> r
      ensures *r == self.v()
//@end
//@endimpl
//@impl src/key.rs Borrow<B> for MaybeBorrowed
    open spec fn bspec(&self) -> &B { &self.v() }
//@endimpl
//@impl src/key.rs MaybeBorrowed
//@contract borrow -> r
      ensures r.v() == self.v()
//@end
//@contract into_or_clone -> r
      ensures self is Owned || clone_ok::<B>() ==> r == self.v()
//@end
//@endimpl
//@cloneof src/key.rs MaybeBorrowed
      ensures clone_ok::<B>() ==> r.v() == self.v()
//@end
impl<'l, 'r, L: PartialEq<R>, R> vstd::std_specs::cmp::PartialEqSpecImpl<MaybeBorrowed<'r, R>> for MaybeBorrowed<'l, L> {
    open spec fn obeys_eq_spec() -> bool { <L as vstd::std_specs::cmp::PartialEqSpec<R>>::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &MaybeBorrowed<'r, R>) -> bool { self.v().eq_spec(&o.v()) }
}
//@impl src/key.rs PartialEq<MaybeBorrowed<'r,R>> for MaybeBorrowed
//@optcontract ne -> r
//@end
//@endimpl
