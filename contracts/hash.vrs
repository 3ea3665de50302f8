//@include prelude.vrs
//@include hashmap.vrs
//@impl src/collection/hash.rs TreeCollection for HashMap
//@subst * ChildTree => V
    open spec fn laws() -> bool { hash_ok::<Hi>() && clone_ok::<Hi>() }
    open spec fn wf(&self) -> bool { nonempty(self@) }
    open spec fn view(&self) -> IMap<Hi, V> { HashMap::view(self) }
    proof fn lemma_wf(&self) { }
//@prologue create proof { lemma_pairs::<Hi, V>(); lemma_hm::<Hi, V>(); }
//@prologue *self proof { lemma_hm::<Hi, V>(); self.lemma_fin(); }
//@endimpl
pub proof fn lemma_hm<K, V>() ensures
    forall|m: IMap<K, V>, k: K, v: V| nonempty(#[trigger] m.insert(k, v)),
    forall|k: K, v: V| fin(#[trigger] IMap::<K, V>::empty().insert(k, v)) && cnt(IMap::<K, V>::empty().insert(k, v)) == 1,
    forall|m: IMap<K, V>, k: K| !nonempty(#[trigger] m.remove(k)) ==> forall|j: K| #[trigger] m.contains_key(j) ==> j == k,
{
    assert forall|m: IMap<K, V>, k: K| !nonempty(#[trigger] m.remove(k)) implies forall|j: K| #[trigger] m.contains_key(j) ==> j == k by { assert forall|j: K| #[trigger] m.contains_key(j) implies j == k by { assert(m.remove(k).contains_key(j) <==> j != k); } }
    assert forall|m: IMap<K, V>, k: K, v: V| nonempty(#[trigger] m.insert(k, v)) by { assert(m.insert(k, v).contains_key(k)); }
    assert forall|k: K, v: V| fin(#[trigger] IMap::<K, V>::empty().insert(k, v)) && cnt(IMap::<K, V>::empty().insert(k, v)) == 1 by { cnt_empty::<K, V>(); cnt_insert(IMap::<K, V>::empty(), k, v); }
}
//@impl src/collection/mod.rs TreeCollection for Box
    open spec fn laws() -> bool { T::laws() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn view(&self) -> IMap<T::Hi, T::Tree> { (**self)@ }
    proof fn lemma_wf(&self) { (**self).lemma_wf(); }
//@endimpl
} // verus!
fn main() {}
