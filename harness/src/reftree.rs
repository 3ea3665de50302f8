//! A reference implementation of `VebTree` on the standard map, used below the code under test
//! so that a mismatch there is not one of another layer.
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::ops::Bound::*;
use veb_tree::key::MaybeBorrowed;
use veb_tree::tree::VebTreeMarker;
use veb_tree::VebTree;

#[derive(Clone)]
pub struct RefTree<K, V>(BTreeMap<K, V>);
pub struct RefMarker;
impl<K: Ord + Clone, V> VebTreeMarker<K, V> for RefMarker {
    type Tree = RefTree<K, V>;
}

type KV<'a, K, V> = (MaybeBorrowed<'a, K>, &'a V);
type KVM<'a, K, V> = (MaybeBorrowed<'a, K>, &'a mut V);
fn b<'a, K, V>((k, v): (&'a K, &'a V)) -> KV<'a, K, V> {
    (MaybeBorrowed::Borrowed(k), v)
}
fn bm<'a, K, V>((k, v): (&'a K, &'a mut V)) -> KVM<'a, K, V> {
    (MaybeBorrowed::Borrowed(k), v)
}
impl<K: Ord + Clone, V> RefTree<K, V> {
    fn out(self) -> Option<Self> {
        if self.0.is_empty() { None } else { Some(self) }
    }
}

impl<K: Ord + Clone, V> VebTree for RefTree<K, V> {
    type Key = K;
    type Value = V;
    fn from_monad(key: K, val: V) -> Self { RefTree(BTreeMap::from([(key, val)])) }
    fn is_monad(&self) -> bool { self.0.len() == 1 }
    fn into_monad(mut self) -> Result<(K, V), Self> {
        if self.0.len() == 1 { Ok(self.0.pop_first().unwrap()) } else { Err(self) }
    }
    fn min_val(&self) -> KV<'_, K, V> { b(self.0.first_key_value().unwrap()) }
    fn min_val_mut(&mut self) -> KVM<'_, K, V> { bm(self.0.iter_mut().next().unwrap()) }
    fn max_val(&self) -> KV<'_, K, V> { b(self.0.last_key_value().unwrap()) }
    fn max_val_mut(&mut self) -> KVM<'_, K, V> { bm(self.0.iter_mut().next_back().unwrap()) }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<KV<'_, K, V>> { self.0.get_key_value(k.borrow()).map(b) }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<KVM<'_, K, V>> {
        let k: &K = k.borrow();
        self.0.range_mut(k.clone()..=k.clone()).next().map(bm)
    }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<KV<'_, K, V>> {
        self.0.range((Unbounded, Excluded(k.borrow()))).next_back().map(b)
    }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<KVM<'_, K, V>> {
        self.0.range_mut((Unbounded, Excluded(k.borrow()))).next_back().map(bm)
    }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<KV<'_, K, V>> {
        self.0.range((Excluded(k.borrow()), Unbounded)).next().map(b)
    }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<KVM<'_, K, V>> {
        self.0.range_mut((Excluded(k.borrow()), Unbounded)).next().map(bm)
    }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> {
        let r = self.0.remove_entry(&k);
        self.0.insert(k, v);
        r
    }
    fn remove<Q: Borrow<K>>(mut self, k: Q) -> Result<(Option<Self>, (K, V)), Self> {
        match self.0.remove_entry(k.borrow()) {
            Some(r) => Ok((self.out(), r)),
            None => Err(self),
        }
    }
    fn remove_min(mut self) -> (Option<Self>, (K, V)) {
        let r = self.0.pop_first().unwrap();
        (self.out(), r)
    }
    fn remove_max(mut self) -> (Option<Self>, (K, V)) {
        let r = self.0.pop_last().unwrap();
        (self.out(), r)
    }
}
