//@include prelude.vrs
//@include nonzero.vrs
//@include bits.vrs
//@struct src/bitset/set.rs ByteSet noclone
impl Copy for ByteSet {}
//@cloneof src/bitset/set.rs ByteSet
      ensures r.0 == self.0
//@end
//@include byteset_spec.vrs
//@impl src/bitset/set.rs ByteSet
//@prologue * proof { lemma_bits(); }
//@prologue array_len proof { card_split(v, 256); }
//@prologue count_below proof { lemma_bits(); lemma_counts(); card_split(self.0, k as int); }
//@prologue array_set_bit,set_bit proof { lemma_bits(); lemma_counts(); }
//@prologue len proof { lemma_bits(); self.lemma_wf(); self.lemma_count(); lemma_counts(); }
//@include byteset_fns.vrs
//@endimpl
//@impl src/bitset/set.rs BitAndAssign<ByteSet> for [u128;2]
//@contract bitand_assign -> r
   ensures forall|i: int| #![trigger bit2(*final(self), i)] #![trigger bit2(*old(self), i)] #![trigger bit2(rhs.0, i)] 0 <= i < 256 ==> (bit2(*final(self), i) <==> bit2(*old(self), i) && bit2(rhs.0, i))
//@end
//@prologue * proof { lemma_bits(); }
//@endimpl
impl vstd::std_specs::ops::BitAndAssignSpecImpl<ByteSet> for [u128;2] {
  open spec fn obeys_bitand_assign_spec() -> bool { false }
  open spec fn bitand_assign_req(&self, rhs: ByteSet) -> bool { true }
  open spec fn bitand_assign_spec(&self, rhs: ByteSet) -> &Self { arbitrary() }
}
//@impl src/bitset/set.rs VebTree for ByteSet
//@include byteset_tree.vrs
//@prologue from_monad proof { lemma_bits(); lemma_counts(); }
//@prologue *self proof { lemma_bits(); self.lemma_wf(); self.lemma_count(); lemma_counts(); }
//@endimpl
} // verus!
fn main() {}
