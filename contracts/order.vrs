pub open spec fn klt<K: Ord>(a: K, b: K) -> bool { a.cmp_spec(&b) == Ordering::Less }

pub open spec fn lawful_ops<K: Ord>() -> bool {
    &&& K::obeys_eq_spec() && K::obeys_partial_cmp_spec() && K::obeys_cmp_spec()
    &&& forall|a: K, b: K| #[trigger] a.eq_spec(&b) <==> a == b
    &&& forall|a: K, b: K| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: K, b: K| #[trigger] a.cmp_spec(&b) == Ordering::Equal <==> a == b
    &&& forall|a: K, b: K| #[trigger] a.cmp_spec(&b) == Ordering::Greater <==> klt(b, a)
}
pub open spec fn lawful<K: Ord>() -> bool {
    &&& lawful_ops::<K>()
    &&& forall|a: K, b: K, c: K| #[trigger] klt(a, b) && #[trigger] klt(b, c) ==> klt(a, c)
}
// ---- trusted: what core documents of Ordering and of bool to usize
pub mod ord_ax {
use super::*;
pub broadcast axiom fn ax_ordering_eq(a: Ordering, b: Ordering) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_ordering_o() ensures #[trigger] <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec();
pub broadcast axiom fn ax_bool_usize(b: bool) ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1usize } else { 0usize });
pub broadcast axiom fn ax_bool_usize_o() ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec();
}
//@broadcast ord_ax::ax_ordering_eq ord_ax::ax_ordering_o ord_ax::ax_bool_usize ord_ax::ax_bool_usize_o
pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };
pub assume_specification [Ordering::then] (o: Ordering, p: Ordering) -> (r: Ordering) ensures r == if o == Ordering::Equal { p } else { o };
