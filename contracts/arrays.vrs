// ---- trusted stubs of array patterns (E14): the element, or the subarray, at that place
pub trait ArrPat { type T; spec fn av(&self) -> Seq<Self::T>; }
impl<T, const N: usize> ArrPat for [T; N] { type T = T; open spec fn av(&self) -> Seq<T> { self@ } }
impl<'a, T, const N: usize> ArrPat for &'a [T; N] { type T = T; open spec fn av(&self) -> Seq<T> { (**self)@ } }
pub trait ArrElem<E>: ArrPat { spec fn same_elem(e: E, t: Self::T) -> bool; }
impl<T, const N: usize> ArrElem<T> for [T; N] { open spec fn same_elem(e: T, t: T) -> bool { e == t } }
impl<'a, T, const N: usize> ArrElem<&'a T> for &'a [T; N] { open spec fn same_elem(e: &'a T, t: T) -> bool { *e == t } }
pub trait ArrRest<R>: ArrPat { spec fn rest(r: R) -> Seq<Self::T>; }
impl<T, const N: usize, const M: usize> ArrRest<[T; M]> for [T; N] { open spec fn rest(r: [T; M]) -> Seq<T> { r@ } }
impl<'a, T, const N: usize, const M: usize> ArrRest<&'a [T; M]> for &'a [T; N] { open spec fn rest(r: &'a [T; M]) -> Seq<T> { r@ } }
#[verifier::external_body]
pub fn arr_elem_<A: ArrElem<E>, E>(a: &A, i: usize) -> (r: E) requires i < a.av().len() ensures A::same_elem(r, a.av()[i as int]) { unimplemented!() }
#[verifier::external_body]
pub fn arr_rest_<A: ArrRest<R>, R>(a: &A, pre: usize, post: usize) -> (r: R)
    ensures A::rest(r).len() + pre + post == a.av().len(), A::rest(r) == a.av().subrange(pre as int, a.av().len() - post) { unimplemented!() }
#[verifier::external_body]
pub fn arr_len_<A: ArrPat>(a: &A) -> (r: usize) ensures r == a.av().len() { unimplemented!() }
pub fn arr_exact_<A: ArrPat>(a: &A, n: usize) requires a.av().len() == n { }
