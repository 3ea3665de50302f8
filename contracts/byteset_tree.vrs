//@default src/lib.rs VebTree len_hint
    open spec fn exact() -> bool { true }
    open spec fn laws() -> bool { true }
    open spec fn wf(&self) -> bool { self.0[0] != 0 || self.0[1] != 0 }
    open spec fn view(&self) -> IMap<u8, ()> { IMap::new(|k: u8| bit2(self.0, k as int), |k: u8| ()) }
    proof fn lemma_wf(&self) {
        lemma_bits();
        assert(exists|k: u8| self@.contains_key(k)) by {
            if self.0[0] != 0 { assert(bit(self.0[0], anybit(self.0[0]))); assert(self@.contains_key(anybit(self.0[0]) as u8)); }
            else { assert(bit(self.0[1], anybit(self.0[1]))); assert(self@.contains_key((anybit(self.0[1]) + 128) as u8)); }
        }
        let k = choose|k: u8| self@.contains_key(k);
        lemma_low(*self, k); lemma_high(*self, k);
    }
