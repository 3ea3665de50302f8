//@contract array_len -> r
   ensures r == card(v, 256)
//@end
//@contract from_array -> r
   ensures match r { Some(s) => s.0 == v && s.wf(), None => v[0] == 0 && v[1] == 0 && forall|i: int| 0 <= i < 256 ==> !bit2(v, i) }
//@end
//@contract len -> r
   requires self.wf()
   ensures r.v() == card(self.0, 256)
//@end
//@contract lowest -> r
   requires self.wf()
   ensures is_min(self@, r)
//@end
//@contract highest -> r
   requires self.wf()
   ensures is_max(self@, r)
//@end
//@contract count_below -> r
   ensures r == card(self.0, k as int)
//@end
//@contract mask_lower -> r
   ensures forall|j: int| 0 <= j < 256 ==> (#[trigger] bit2(r, j) <==> j < i)
//@end
//@contract mask_higher -> r
   ensures forall|j: int| 0 <= j < 256 ==> (#[trigger] bit2(r, j) <==> j > i)
//@end
//@contract is_present -> r
   ensures r == self@.contains_key(k)
//@end
//@contract set_bit -> r
   ensures final(self)@ =~= old(self)@.insert(k, ()), final(self).wf(), final(self).1 == old(self).1
//@end
//@contract array_set_bit -> r
   ensures forall|i: int| 0 <= i < 256 ==> (#[trigger] bit2(*final(a), i) <==> bit2(*old(a), i) || i == k), bit2(*final(a), k as int)
//@end
//@contract unset_bit -> r
   ensures final(self)@ =~= old(self)@.remove(k), final(self).1 == old(self).1
//@end
