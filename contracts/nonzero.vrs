pub mod nonzero_mod {
use super::*;
/// stand-in for `core::num::NonZeroUsize`: an assumed contract on a dependency
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NonZeroUsize { v: usize }
impl NonZeroUsize {
    pub uninterp spec fn v(&self) -> int;
    pub uninterp spec fn of(v: int) -> NonZeroUsize;
    pub broadcast proof fn ax(a: NonZeroUsize) ensures 1 <= #[trigger] a.v() <= usize::MAX, NonZeroUsize::of(a.v()) == a { admit(); }
    pub broadcast proof fn ax_of(v: int) requires 1 <= v <= usize::MAX ensures (#[trigger] NonZeroUsize::of(v)).v() == v { admit(); }
    pub exec const MIN: NonZeroUsize ensures NonZeroUsize::MIN.v() == 1 { nz_one() }
    #[verifier::external_body]
    pub const fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures v == 0 ==> r is None, v != 0 ==> (r matches Some(n) && n.v() == v) { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
    #[verifier::external_body]
    pub const fn get(self) -> (r: usize) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: usize) -> (r: Option<NonZeroUsize>) ensures self.v() + o <= usize::MAX ==> (r matches Some(n) && n.v() == self.v() + o), self.v() + o > usize::MAX ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: usize) -> (r: NonZeroUsize) ensures self.v() + o <= usize::MAX ==> r.v() == self.v() + o, self.v() + o > usize::MAX ==> r.v() == usize::MAX { unimplemented!() }
}
#[verifier::external_body]
const fn nz_one() -> (r: NonZeroUsize) ensures r.v() == 1 { NonZeroUsize { v: 1 } }
pub broadcast group nz_axioms { NonZeroUsize::ax, NonZeroUsize::ax_of }
impl vstd::std_specs::cmp::PartialEqSpecImpl for NonZeroUsize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NonZeroUsize) -> bool { self.v() == o.v() }
}
impl PartialEq for NonZeroUsize {
    #[verifier::external_body]
    fn eq(&self, o: &NonZeroUsize) -> (r: bool) { unimplemented!() }
}
impl Eq for NonZeroUsize { }
}
pub use nonzero_mod::NonZeroUsize;
//@broadcast nonzero_mod::nz_axioms
