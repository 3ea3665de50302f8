#![allow(unused_imports, dead_code, unused_variables)]
#![feature(allocator_api)]
#![recursion_limit = "256"]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::*;
use core::mem::{replace, swap, take};
use core::marker::PhantomData;

verus! {

//@include order.vrs
//@include borrow.vrs
//@include arrays.vrs
//@include maybe_borrowed.vrs
pub type TreeKV<VT> = (<VT as VebTree>::Key, <VT as VebTree>::Value);
pub type RemoveResult<VT> = (Option<VT>, TreeKV<VT>);
pub type MaybeRemoveResult<VT> = Result<RemoveResult<VT>, VT>;

pub open spec fn is_empty<K, V>(m: IMap<K, V>) -> bool { forall|j: K| !#[trigger] m.contains_key(j) }
pub open spec fn nonempty<K, V>(m: IMap<K, V>) -> bool { exists|j: K| #[trigger] m.contains_key(j) }
pub open spec fn is_min<K: Ord, V>(m: IMap<K, V>, k: K) -> bool { m.contains_key(k) && forall|j: K| #[trigger] m.contains_key(j) ==> j == k || klt(k, j) }
pub open spec fn is_max<K: Ord, V>(m: IMap<K, V>, k: K) -> bool { m.contains_key(k) && forall|j: K| #[trigger] m.contains_key(j) ==> j == k || klt(j, k) }
/// one entry, both smallest and largest
pub open spec fn single<K: Ord, V>(m: IMap<K, V>) -> bool { exists|k: K| is_min(m, k) && is_max(m, k) }
pub open spec fn is_pred<K: Ord, V>(m: IMap<K, V>, k: K, p: K) -> bool { m.contains_key(p) && klt(p, k) && forall|j: K| #[trigger] m.contains_key(j) && klt(j, k) ==> j == p || klt(j, p) }
pub open spec fn is_succ<K: Ord, V>(m: IMap<K, V>, k: K, p: K) -> bool { m.contains_key(p) && klt(k, p) && forall|j: K| #[trigger] m.contains_key(j) && klt(k, j) ==> j == p || klt(p, j) }
pub open spec fn no_pred<K: Ord, V>(m: IMap<K, V>, k: K) -> bool { forall|j: K| #[trigger] m.contains_key(j) ==> !klt(j, k) }
pub open spec fn no_succ<K: Ord, V>(m: IMap<K, V>, k: K) -> bool { forall|j: K| #[trigger] m.contains_key(j) ==> !klt(k, j) }
pub open spec fn fin<K, V>(m: IMap<K, V>) -> bool { m.dom().finite() }
pub open spec fn cnt<K, V>(m: IMap<K, V>) -> int { m.dom().len() as int }
pub proof fn cnt_insert<K, V>(m: IMap<K, V>, k: K, v: V) requires fin(m) ensures fin(m.insert(k, v)), cnt(m.insert(k, v)) == cnt(m) + if m.contains_key(k) { 0int } else { 1int }
{ assert(m.insert(k, v).dom() =~= m.dom().insert(k)); if m.contains_key(k) { assert(m.dom().insert(k) =~= m.dom()); } }
pub proof fn cnt_remove<K, V>(m: IMap<K, V>, k: K) requires fin(m) ensures fin(m.remove(k)), cnt(m.remove(k)) == cnt(m) - if m.contains_key(k) { 1int } else { 0int }
{ assert(m.remove(k).dom() =~= m.dom().remove(k)); if !m.contains_key(k) { assert(m.dom().remove(k) =~= m.dom()); } }
pub proof fn cnt_empty<K, V>() ensures fin(IMap::<K, V>::empty()), cnt(IMap::<K, V>::empty()) == 0 { assert(IMap::<K, V>::empty().dom() =~= ISet::empty()); }
pub proof fn cnt_one<K, V>(m: IMap<K, V>, k: K) requires m.contains_key(k), forall|j: K| #[trigger] m.contains_key(j) ==> j == k ensures fin(m), cnt(m) == 1
{ cnt_empty::<K, V>(); let s = IMap::<K, V>::empty().insert(k, m[k]); assert(m =~= s); cnt_insert(IMap::<K, V>::empty(), k, m[k]); }
pub proof fn cnt_pos<K, V>(m: IMap<K, V>, k: K) requires fin(m), m.contains_key(k) ensures cnt(m) >= 1
{ cnt_remove(m, k); }
pub proof fn cnt_two<K, V>(m: IMap<K, V>, a: K, b: K) requires fin(m), m.contains_key(a), m.contains_key(b), a != b ensures cnt(m) >= 2
{ cnt_remove(m, a); cnt_pos(m.remove(a), b); }

/// what a length hint promises: a lower bound, and an upper bound when it gives one
pub open spec fn hint_ok<K, V>(m: IMap<K, V>, r: (usize, Option<usize>)) -> bool {
    fin(m) ==> r.0 <= cnt(m) && (r.1 matches Some(u) ==> cnt(m) <= u)
}
pub proof fn lemma_hint<K: Ord, V>(m: IMap<K, V>) requires exists|k: K| is_min(m, k), exists|k: K| is_max(m, k) ensures
    fin(m) ==> cnt(m) >= 1 && (!(single(m)) ==> cnt(m) >= 2),
    lawful::<K>() && (single(m)) ==> fin(m) && cnt(m) == 1,
    lawful::<K>() && fin(m) && cnt(m) == 1 ==> (single(m)),
{
    let a = choose|k: K| is_min(m, k);
    let b = choose|k: K| is_max(m, k);
    if fin(m) { cnt_pos(m, a); if a != b { cnt_two(m, a, b); } }
    if lawful::<K>() && single(m) {
        let k = choose|k: K| is_min(m, k) && is_max(m, k);
        assert forall|j: K| #[trigger] m.contains_key(j) implies j == k by {}
        cnt_one(m, k);
    }
}
/// `T::default()` of the plain types the code uses it at
pub trait PlainDefault: Sized { spec fn dv() -> Self; fn default_() -> (r: Self) ensures r == Self::dv(); }
impl PlainDefault for u8 { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for u16 { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for u32 { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for u64 { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for u128 { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for usize { open spec fn dv() -> Self { 0 } fn default_() -> Self { 0 } }
impl PlainDefault for bool { open spec fn dv() -> Self { false } fn default_() -> Self { false } }
impl PlainDefault for () { open spec fn dv() -> Self { () } fn default_() -> Self { () } }
impl<T> PlainDefault for Option<T> { open spec fn dv() -> Self { None } fn default_() -> Self { None } }
pub fn default_value<T: PlainDefault>() -> (r: T) ensures r == T::dv() { T::default_() }

pub trait VebTree: Sized {
    type Key: Ord;
    type Value;

    /// this type's length hint is exact
    open spec fn exact() -> bool { false }
    spec fn laws() -> bool;
    spec fn wf(&self) -> bool;
    spec fn view(&self) -> IMap<Self::Key, Self::Value>;
    proof fn lemma_wf(&self) 
        requires Self::laws(), self.wf(),
        ensures lawful::<Self::Key>(), exists|k: Self::Key| is_min(self@, k), exists|k: Self::Key| is_max(self@, k);

    fn from_monad(key: Self::Key, val: Self::Value) -> (r: Self)
        requires Self::laws(),
        ensures r.wf(), r@ =~= IMap::<Self::Key, Self::Value>::empty().insert(key, val);

    fn is_monad(&self) -> (r: bool)
        requires Self::laws(), self.wf(),
        ensures r == single(self@);

    fn len_hint(&self) -> (r: (usize, Option<usize>))
        requires Self::laws(), self.wf(),
        ensures hint_ok(self@, r), Self::exact() && fin(self@) ==> r.0 == cnt(self@) && r.1 == Some(r.0);

    fn into_monad(self) -> (r: Result<TreeKV<Self>, Self>)
        requires Self::laws(), self.wf(),
        ensures match r {
            Ok(kv) => self@ =~= IMap::<Self::Key, Self::Value>::empty().insert(kv.0, kv.1),
            Err(t) => t == self && !single(self@),
        };

    fn min_val(&self) -> (r: (MaybeBorrowed<'_, Self::Key>, &Self::Value))
        requires Self::laws(), self.wf(),
        ensures is_min(self@, r.0.v()), *r.1 == self@[r.0.v()];

    fn min_val_mut(&mut self) -> (r: (MaybeBorrowed<'_, Self::Key>, &mut Self::Value))
        requires Self::laws(), old(self).wf(),
        ensures is_min(old(self)@, r.0.v()), *r.1 == old(self)@[r.0.v()],
            final(self).wf(), final(self)@ =~= old(self)@.insert(r.0.v(), *final(r.1));

    fn max_val(&self) -> (r: (MaybeBorrowed<'_, Self::Key>, &Self::Value))
        requires Self::laws(), self.wf(),
        ensures is_max(self@, r.0.v()), *r.1 == self@[r.0.v()];

    fn max_val_mut(&mut self) -> (r: (MaybeBorrowed<'_, Self::Key>, &mut Self::Value))
        requires Self::laws(), old(self).wf(),
        ensures is_max(old(self)@, r.0.v()), *r.1 == old(self)@[r.0.v()],
            final(self).wf(), final(self)@ =~= old(self)@.insert(r.0.v(), *final(r.1));

    fn find<Q>(&self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), self.wf(),
        ensures match r {
            Some(kv) => kv.0.v() == k.bspec() && self@.contains_key(*k.bspec()) && *kv.1 == self@[*k.bspec()],
            None => !self@.contains_key(*k.bspec()),
        };

    fn find_mut<Q>(&mut self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), old(self).wf(),
        ensures match r {
            Some(kv) => kv.0.v() == k.bspec() && old(self)@.contains_key(*k.bspec()) && *kv.1 == old(self)@[*k.bspec()]
                && final(self).wf() && final(self)@ =~= old(self)@.insert(*k.bspec(), *final(kv.1)),
            None => !old(self)@.contains_key(*k.bspec()) && final(self).wf() && final(self)@ =~= old(self)@,
        };

    fn predecessor<Q>(&self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), self.wf(),
        ensures match r {
            Some(kv) => is_pred(self@, *k.bspec(), kv.0.v()) && *kv.1 == self@[kv.0.v()],
            None => no_pred(self@, *k.bspec()),
        };
    fn predecessor_mut<Q>(&mut self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), old(self).wf(),
        ensures match r {
            Some(kv) => is_pred(old(self)@, *k.bspec(), kv.0.v()) && *kv.1 == old(self)@[kv.0.v()]
                && final(self).wf() && final(self)@ =~= old(self)@.insert(kv.0.v(), *final(kv.1)),
            None => no_pred(old(self)@, *k.bspec()) && final(self).wf() && final(self)@ =~= old(self)@,
        };
    fn successor<Q>(&self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), self.wf(),
        ensures match r {
            Some(kv) => is_succ(self@, *k.bspec(), kv.0.v()) && *kv.1 == self@[kv.0.v()],
            None => no_succ(self@, *k.bspec()),
        };
    fn successor_mut<Q>(&mut self, k: Q) -> (r: Option<(MaybeBorrowed<'_, Self::Key>, &mut Self::Value)>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), old(self).wf(),
        ensures match r {
            Some(kv) => is_succ(old(self)@, *k.bspec(), kv.0.v()) && *kv.1 == old(self)@[kv.0.v()]
                && final(self).wf() && final(self)@ =~= old(self)@.insert(kv.0.v(), *final(kv.1)),
            None => no_succ(old(self)@, *k.bspec()) && final(self).wf() && final(self)@ =~= old(self)@,
        };

    fn insert(&mut self, k: Self::Key, v: Self::Value) -> (r: Option<TreeKV<Self>>)
        requires Self::laws(), old(self).wf(),
        ensures final(self).wf(), final(self)@ =~= old(self)@.insert(k, v),
            match r { Some(kv) => old(self)@.contains_key(k) && kv == (k, old(self)@[k]), None => !old(self)@.contains_key(k) };

    fn remove<Q>(self, k: Q) -> (r: MaybeRemoveResult<Self>)
    where
        Q: Borrow<Self::Key>
        requires Self::laws(), self.wf(),
        ensures match r {
            Ok(r) => ({ &&& self@.contains_key(*k.bspec()) &&& r.1 == (*k.bspec(), self@[*k.bspec()]) &&& match r.0 { Some(t2) => t2.wf() && t2@ =~= self@.remove(*k.bspec()), None => forall|j: Self::Key| #[trigger] self@.contains_key(j) ==> j == *k.bspec() } }),
            Err(t) => !self@.contains_key(*k.bspec()) && t.wf() && t@ =~= self@,
        };
    fn remove_min(self) -> (r: RemoveResult<Self>)
        requires Self::laws(), self.wf(),
        ensures is_min(self@, r.1.0), ({ &&& self@.contains_key(r.1.0) &&& r.1 == (r.1.0, self@[r.1.0]) &&& match r.0 { Some(t2) => t2.wf() && t2@ =~= self@.remove(r.1.0), None => forall|j: Self::Key| #[trigger] self@.contains_key(j) ==> j == r.1.0 } });
    fn remove_max(self) -> (r: RemoveResult<Self>)
        requires Self::laws(), self.wf(),
        ensures is_max(self@, r.1.0), ({ &&& self@.contains_key(r.1.0) &&& r.1 == (r.1.0, self@[r.1.0]) &&& match r.0 { Some(t2) => t2.wf() && t2@ =~= self@.remove(r.1.0), None => forall|j: Self::Key| #[trigger] self@.contains_key(j) ==> j == r.1.0 } });
}


/// what `|t| Ok(f(t))` promises
pub open spec fn ok_of_<F: FnOnce(T) -> X, T, X>(f: F, t: T, o: Result<X, T>) -> bool {
    match o { Ok(x) => call_ensures(f, (t,), x), Err(_) => false }
}
pub open spec fn remove_pre<T: VebTree>(t: T) -> bool { T::laws() && t.wf() }
pub open spec fn rm_post<T: VebTree>(t: T, k: T::Key, r: RemoveResult<T>) -> bool {
    &&& t@.contains_key(k) &&& r.1 == (k, t@[k])
    &&& match r.0 { Some(t2) => t2.wf() && t2@ =~= t@.remove(k), None => forall|j: T::Key| #[trigger] t@.contains_key(j) ==> j == k }
}
pub open spec fn remove_post<T: VebTree>(t: T, k: T::Key, r: MaybeRemoveResult<T>) -> bool {
    match r {
        Ok(r) => rm_post(t, k, r),
        Err(t2) => !t@.contains_key(k) && t2.wf() && t2@ =~= t@,
    }
}
pub open spec fn remove_min_post<T: VebTree>(t: T, r: RemoveResult<T>) -> bool { is_min(t@, r.1.0) && rm_post(t, r.1.0, r) }
pub open spec fn remove_max_post<T: VebTree>(t: T, r: RemoveResult<T>) -> bool { is_max(t@, r.1.0) && rm_post(t, r.1.0, r) }
pub trait VebKey: Ord + Sized {
    type Hi: Ord;
    type Lo: Ord;
    spec fn klaws() -> bool;
    spec fn hi(self) -> Self::Hi;
    spec fn lo(self) -> Self::Lo;
    spec fn mk(h: Self::Hi, l: Self::Lo) -> Self;
    proof fn lemma_key() requires Self::klaws() ensures
        lawful::<Self>(), lawful::<Self::Hi>(), lawful::<Self::Lo>(),
        forall|k: Self| #![trigger k.hi()] #![trigger k.lo()] Self::mk(k.hi(), k.lo()) == k,
        forall|a: Self, b: Self| #[trigger] klt(a, b) <==> klt(a.hi(), b.hi()) || (a.hi() == b.hi() && klt(a.lo(), b.lo()));

    fn split_val(self) -> (r: (Self::Hi, Self::Lo)) where Self: Sized
       requires Self::klaws(),
       ensures r.0 == self.hi(), r.1 == self.lo();
    fn join<'a>(hi: MaybeBorrowed<'a, Self::Hi>, lo: MaybeBorrowed<'a, Self::Lo>) -> (r: Self) where Self: Sized
       requires Self::klaws(),
       ensures r == Self::mk(hi.v(), lo.v());
}
pub trait VebKeyRef<Hi: Ord, Lo: Ord> {
    spec fn rlaws() -> bool;
    spec fn sr(&self) -> (Hi, Lo);
    fn split_ref_pair(&self) -> (r: (Hi, Lo))
    requires Self::rlaws(),
    ensures r == self.sr();
}
pub trait VebTreeMarker<K, V> {
    type Tree: VebTree<Key = K, Value = V>;
}
pub trait SuperTreeCollection<K: VebKey, V> {
    type Tree: VebTree<Key = K::Lo, Value = V>;
    type TC: TreeCollection<Hi = K::Hi, Tree = Self::Tree>;
}

impl<K: VebKey, V, T> SuperTreeCollection<K, V> for T
where
    T: TreeCollection<Hi = K::Hi>,
    T::Tree: VebTree<Key = K::Lo, Value = V>,
{
    type TC = T;
    type Tree = T::Tree;
}

pub trait VebTreeCollectionMarker<K: VebKey, V> {
    type TreeCollection: SuperTreeCollection<K, V>;
}
pub type CollectionKV<TC> = TreeKV<<TC as TreeCollection>::Tree>;
pub type TreeInsertResult<TC> =
    Result<<TC as TreeCollection>::Hi, (<TC as TreeCollection>::Hi, Option<CollectionKV<TC>>)>;
pub type TreeRemoveResult<TC> = (Option<(TC, bool)>, CollectionKV<TC>);
pub type TreeMaybeRemoveResult<TC> = Result<TreeRemoveResult<TC>, TC>;

pub trait TreeCollection: Sized {
    type Hi;
    type Tree: VebTree;
    spec fn laws() -> bool;
    spec fn wf(&self) -> bool;
    spec fn view(&self) -> IMap<Self::Hi, Self::Tree>;
    proof fn lemma_wf(&self) 
        requires Self::laws(), self.wf(),
        ensures nonempty(self@);

    fn create(h: &Self::Hi, tree: Self::Tree) -> (r: Self)
        requires Self::laws(),
        ensures r.wf(), r@ =~= IMap::<Self::Hi, Self::Tree>::empty().insert(*h, tree);
    fn get(&self, h: &Self::Hi) -> (r: Option<&Self::Tree>)
        requires Self::laws(), self.wf(),
        ensures match r { Some(t) => self@.contains_key(*h) && self@[*h] == *t, None => !self@.contains_key(*h) };
    fn get_mut(&mut self, h: &Self::Hi) -> (r: Option<&mut Self::Tree>)
        requires Self::laws(), old(self).wf(),
        ensures match r {
            Some(t) => old(self)@.contains_key(*h) && old(self)@[*h] == *t
                && final(self).wf() && final(self)@ =~= old(self)@.insert(*h, *final(t)),
            None => !old(self)@.contains_key(*h) && final(self).wf() && final(self)@ =~= old(self)@ };
    fn insert_key(&mut self, h: Self::Hi, lv: CollectionKV<Self>) -> (r: TreeInsertResult<Self>)
        requires Self::laws(), <Self::Tree as VebTree>::laws(), old(self).wf(), old(self)@.contains_key(h) ==> old(self)@[h].wf(),
        ensures final(self).wf(),
            final(self)@.contains_key(h),
            final(self)@[h].wf(),
            final(self)@ =~= old(self)@.insert(h, final(self)@[h]),
            match r {
                Ok(h2) => h2 == h && !old(self)@.contains_key(h) && final(self)@[h]@ =~= IMap::<<Self::Tree as VebTree>::Key, <Self::Tree as VebTree>::Value>::empty().insert(lv.0, lv.1),
                Err(p) => p.0 == h && old(self)@.contains_key(h) && final(self)@[h]@ =~= old(self)@[h]@.insert(lv.0, lv.1)
                    && match p.1 { Some(kv) => old(self)@[h]@.contains_key(lv.0) && kv == (lv.0, old(self)@[h]@[lv.0]), None => !old(self)@[h]@.contains_key(lv.0) },
            };
    fn remove_key<Q, R>(self, h: Q, r: R) -> (ret: TreeRemoveResult<Self>)
    where
        Q: Borrow<Self::Hi>,
        R: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>
        requires Self::laws(), self.wf(), self@.contains_key(*h.bspec()), r.requires((self@[*h.bspec()],)),
        ensures exists|o: RemoveResult<Self::Tree>| #[trigger] r.ensures((self@[*h.bspec()],), o) && ({ &&& ret.1 == o.1
    &&& match o.0 {
        Some(t) => ret.0 matches Some(cb) && !cb.1 && cb.0.wf() && cb.0@ =~= self@.insert(*h.bspec(), t),
        None => match ret.0 {
            None => forall|j: Self::Hi| #[trigger] self@.contains_key(j) ==> j == *h.bspec(),
            Some(cb) => cb.1 && cb.0.wf() && cb.0@ =~= self@.remove(*h.bspec()) && nonempty(cb.0@),
        }
    } });
    fn maybe_remove_key<Q, R>(self, h: Q, r: R) -> (ret: TreeMaybeRemoveResult<Self>)
    where
        Q: Borrow<Self::Hi>,
        R: FnOnce(Self::Tree) -> MaybeRemoveResult<Self::Tree>
        requires Self::laws(), self.wf(), self@.contains_key(*h.bspec()) ==> r.requires((self@[*h.bspec()],)),
        ensures
            !self@.contains_key(*h.bspec()) ==> (ret matches Err(c) && c.wf() && c@ =~= self@),
            self@.contains_key(*h.bspec()) ==> exists|o: MaybeRemoveResult<Self::Tree>| #[trigger] r.ensures((self@[*h.bspec()],), o)
                && match o {
                    Err(t) => ret matches Err(c) && c.wf() && c@ =~= self@.insert(*h.bspec(), t),
                    Ok(o) => ret matches Ok(ret) && ({ &&& ret.1 == o.1
    &&& match o.0 {
        Some(t) => ret.0 matches Some(cb) && !cb.1 && cb.0.wf() && cb.0@ =~= self@.insert(*h.bspec(), t),
        None => match ret.0 {
            None => forall|j: Self::Hi| #[trigger] self@.contains_key(j) ==> j == *h.bspec(),
            Some(cb) => cb.1 && cb.0.wf() && cb.0@ =~= self@.remove(*h.bspec()) && nonempty(cb.0@),
        }
    } }),
                };
}

/// whether debug assertions are compiled in: unknown, so that code which needs them, or their absence, fails
pub uninterp spec fn debug_build() -> bool;
#[verifier::external_body]
pub fn debug_build_() -> (r: bool) ensures r == debug_build() { unimplemented!() }
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { unimplemented!() }
pub enum PoloniusResult<B, O, I> { Borrowing(B), Owned { value: O, input_borrow: I } }
#[verifier::external_body]
fn polonius_seq<'a, T>(input: &'a mut T) -> (r: (&'a mut T, &'a mut T))
   ensures *r.0 == *old(input), *r.1 == *final(r.0), *final(input) == *final(r.1)
{ unimplemented!() }
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T)
   ensures r == *old(d), *final(d) == s;
//@include boxes.vrs
