//@include prelude.vrs
//@include nonzero.vrs
//@include bits.vrs
//@include vecdeque.vrs
//@include list.vrs
//@struct src/bitset/set.rs ByteSet noclone
impl Copy for ByteSet {}
//@cloneof src/bitset/set.rs ByteSet
      ensures r.0 == self.0
//@end
//@include byteset_spec.vrs
//@include rank.vrs
//@impl src/bitset/set.rs ByteSet
//@external *
//@only len lowest highest count_below is_present set_bit unset_bit
//@include byteset_fns.vrs
//@endimpl
//@impl src/bitset/set.rs VebTree for ByteSet
//@include byteset_tree.vrs
//@external *
//@endimpl
//@impl src/bitset/map/list.rs TreeList for VecDeque
//@subst * Entry => VecEntry_
//@subst * ChildTree => V
    open spec fn wf(&self) -> bool { self@.len() > 0 }
    open spec fn view(&self) -> Seq<V> { VecDeque::view(self) }
    proof fn lemma_wf(&self) { }
//@endimpl
//@impl src/bitset/map/list.rs List for VecDeque
//@subst * Entry => VecEntry_
    open spec fn wf(&self) -> bool { self@.len() > 0 }
    open spec fn view(&self) -> Seq<V> { VecDeque::view(self) }
    proof fn lemma_wf(&self) { }
//@endimpl
//@struct src/bitset/map/mod.rs ByteMap
proof fn lemma_mm<V>(s: IMap<u8, ()>, m: IMap<u8, V>) requires forall|k: u8| #![trigger s.contains_key(k)] #![trigger m.contains_key(k)] s.contains_key(k) <==> m.contains_key(k)
    ensures forall|k: u8| #![trigger is_min(s, k)] #![trigger is_min(m, k)] is_min(s, k) <==> is_min(m, k), forall|k: u8| #![trigger is_max(s, k)] #![trigger is_max(m, k)] is_max(s, k) <==> is_max(m, k),
{
    assert forall|k: u8| #![trigger is_min(s, k)] #![trigger is_min(m, k)] is_min(s, k) <==> is_min(m, k) by { if is_min(s, k) { assert(m.contains_key(k)); } if is_min(m, k) { assert(s.contains_key(k)); } }
    assert forall|k: u8| #![trigger is_max(s, k)] #![trigger is_max(m, k)] is_max(s, k) <==> is_max(m, k) by { if is_max(s, k) { assert(m.contains_key(k)); } if is_max(m, k) { assert(s.contains_key(k)); } }
}
proof fn lemma_bm<L: TreeList>(a: ByteMap<L>)
    requires a.wf()
    ensures
        forall|m: ByteMap<L>| #[trigger] m.wf() ==> nonempty(m@),
        forall|b: ByteMap<L>, k: u8, t: L::Tree| #![trigger a@.insert(k, t), b@] a@.contains_key(k) && b.set@ == a.set@ && b.list@ == a.list@.update(card(a.set.0, k as int), t) ==> b@ == a@.insert(k, t),
        forall|b: ByteMap<L>, k: u8| #![trigger a.set@.remove(k), b.list@] a@.contains_key(k) && b.set@ == a.set@.remove(k) && b.list.wf() && b.list@ == a.list@.remove(card(a.set.0, k as int)) && a.list@.len() > 1 ==> b@ == a@.remove(k) && b.wf() && nonempty(b@),
        forall|b: ByteMap<L>| #![trigger b@] b.set@ == a.set@ && b.list@ == a.list@ ==> b@ == a@,
{
    lemma_ranks();
    assert forall|m: ByteMap<L>| #[trigger] m.wf() implies nonempty(m@) by { m.lemma_wf(); }
    assert forall|b: ByteMap<L>, k: u8, t: L::Tree| #![trigger a@.insert(k, t), b@] a@.contains_key(k) && b.set@ == a.set@ && b.list@ == a.list@.update(card(a.set.0, k as int), t) implies b@ == a@.insert(k, t) by {
        assert forall|j: u8| b@.contains_key(j) implies b@[j] == a@.insert(k, t)[j] by { assert(card(b.set.0, j as int) == card(a.set.0, j as int)); assert(card(a.set.0, k as int) >= 0); }
        assert(b@ =~= a@.insert(k, t));
    }
    assert forall|b: ByteMap<L>, k: u8| #![trigger a.set@.remove(k), b.list@] a@.contains_key(k) && b.set@ == a.set@.remove(k) && b.list.wf() && b.list@ == a.list@.remove(card(a.set.0, k as int)) && a.list@.len() > 1 implies b@ == a@.remove(k) && b.wf() && nonempty(b@) by {
        assert forall|j: u8| b@.contains_key(j) implies b@[j] == a@[j] by { assert(card(b.set.0, j as int) <= card(a.set.0, j as int)); assert(card(a.set.0, k as int) >= 0); }
        assert(b@ =~= a@.remove(k)); assert(card(b.set.0, 256) == card(a.set.0, 256) - 1); assert(b.wf()); b.lemma_wf();
    }
    assert forall|b: ByteMap<L>| #![trigger b@] b.set@ == a.set@ && b.list@ == a.list@ implies b@ == a@ by {
        assert forall|j: u8| b@.contains_key(j) implies b@[j] == a@[j] by { assert(card(b.set.0, j as int) == card(a.set.0, j as int)); }
        assert(b@ =~= a@);
    }
}
//@impl src/bitset/map/mod.rs TreeCollection for ByteMap
//@subst * ChildTree => L::Tree
    open spec fn laws() -> bool { true }
    open spec fn wf(&self) -> bool { self.set.wf() && self.list.wf() && self.list@.len() == card(self.set.0, 256) }
    open spec fn view(&self) -> IMap<u8, L::Tree> { IMap::new(|k: u8| self.set@.contains_key(k), |k: u8| self.list@[card(self.set.0, k as int)]) }
    proof fn lemma_wf(&self) { self.set.lemma_wf(); let k = choose|k: u8| is_min(self.set@, k); assert(self@.contains_key(k)); }
//@prologue from_monad,create proof { lemma_ranks(); }
//@prologue remove_key,maybe_remove_key proof { lemma_ranks(); lemma_bm::<L>(self); self.set.lemma_wf(); self.list.lemma_wf(); }
//@prologue get,get_mut,insert_key proof { lemma_ranks(); lemma_bm::<L>(*self); self.set.lemma_wf(); self.list.lemma_wf(); }
//@endimpl
//@impl src/bitset/map/mod.rs VebTree for ByteMap
//@default src/lib.rs VebTree len_hint
    open spec fn laws() -> bool { true }
    open spec fn wf(&self) -> bool { self.set.wf() && self.list.wf() && self.list@.len() == card(self.set.0, 256) }
    open spec fn view(&self) -> IMap<u8, L::Value> { IMap::new(|k: u8| self.set@.contains_key(k), |k: u8| self.list@[card(self.set.0, k as int)]) }
    proof fn lemma_wf(&self) { self.set.lemma_wf(); let k = choose|k: u8| is_min(self.set@, k); let j = choose|k: u8| is_max(self.set@, k); assert(is_min(self@, k)); assert(is_max(self@, j)); }
//@prologue from_monad,create proof { lemma_ranks(); }
//@prologue *self proof { lemma_ranks(); self.set.lemma_wf(); self.list.lemma_wf(); self.set.lemma_count(); lemma_mm(self.set@, self@); }
//@prologue len_hint proof { self.lemma_wf(); lemma_hint(self@); }
//@endimpl
} // verus!
fn main() {}
