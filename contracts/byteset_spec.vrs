proof fn card_cnt(a: [u128; 2], n: int)
    requires 0 <= n <= 256
    ensures ({ let m = IMap::new(|k: u8| k < n && bit2(a, k as int), |k: u8| ()); fin(m) && cnt(m) == card(a, n) })
    decreases n
{
    let m = IMap::new(|k: u8| k < n && bit2(a, k as int), |k: u8| ());
    if n <= 0 { cnt_empty::<u8, ()>(); assert(m =~= IMap::<u8, ()>::empty()); }
    else {
        card_cnt(a, n - 1);
        let p = IMap::new(|k: u8| k < n - 1 && bit2(a, k as int), |k: u8| ());
        if bit2(a, n - 1) { cnt_insert(p, (n - 1) as u8, ()); assert(m =~= p.insert((n - 1) as u8, ())); } else { assert(m =~= p); }
    }
}
impl ByteSet {
    proof fn lemma_count(&self)
        requires self.wf()
        ensures 1 <= card(self.0, 256) <= 256, card(self.0, 256) == 1 <==> single(self@),
            fin(self@), cnt(self@) == card(self.0, 256)
    {
        self.lemma_wf();
        card_cnt(self.0, 256);
        assert(self@ =~= IMap::new(|k: u8| k < 256 && bit2(self.0, k as int), |k: u8| ()));
        let k = choose|k: u8| self@.contains_key(k);
        card_mono(self.0, 0, 256);
        assert(bit2(self.0, k as int));
        if card(self.0, 256) == 1 {
            assert forall|j: u8| #[trigger] self@.contains_key(j) implies j == k by {
                if j < k { card_two(self.0, j as int, k as int, 256); } else if k < j { card_two(self.0, k as int, j as int, 256); }
            }
            assert(is_min(self@, k) && is_max(self@, k));
        }
        if single(self@) {
            let k = choose|k: u8| is_min(self@, k) && is_max(self@, k);
            assert forall|i: int| 0 <= i < 256 && #[trigger] bit2(self.0, i) implies i == k by { assert(self@.contains_key(i as u8)); }
            card_zero(self.0, 0, k as int); card_zero(self.0, k + 1, 256);
        }
    }
}
pub proof fn lemma_counts()
    ensures
        forall|a: [u128; 2], b: [u128; 2], k: int| #![trigger card(b, 256), card(a, k)] 0 <= k <= 256 && (forall|i: int| 0 <= i < 256 ==> (#[trigger] bit2(b, i) <==> bit2(a, i) && i < k)) ==> card(b, 256) == card(a, k),
        forall|s: ByteSet, i: int| 0 <= i < 256 && #[trigger] bit2(s.0, i) ==> s@.contains_key(i as u8) && s.wf(),
        forall|a: [u128; 2]| #![trigger pc(a[0], 128)] #![trigger pc(a[1], 128)] card(a, 256) == pc(a[0], 128) + pc(a[1], 128),
        forall|x: u128, y: u128, k: int| #![trigger pc(y, 128), pc(x, k)] 0 <= k <= 128 && (forall|i: int| 0 <= i < 128 ==> (#[trigger] bit(y, i) <==> bit(x, i) && i < k)) ==> pc(y, 128) == pc(x, k),
        forall|x: u128, s: u128| s < 128 ==> #[trigger] pc(x << s, 128) == pc(x, 128 - s),
        forall|y: u128| (forall|i: int| 0 <= i < 128 ==> !#[trigger] bit(y, i)) ==> #[trigger] pc(y, 128) == 0,
{
    lemma_bits();
    assert forall|a: [u128; 2]| #![trigger pc(a[0], 128)] #![trigger pc(a[1], 128)] card(a, 256) == pc(a[0], 128) + pc(a[1], 128) by { card_split(a, 256); }
    assert forall|x: u128, y: u128, k: int| #![trigger pc(y, 128), pc(x, k)] 0 <= k <= 128 && (forall|i: int| 0 <= i < 128 ==> (#[trigger] bit(y, i) <==> bit(x, i) && i < k)) implies pc(y, 128) == pc(x, k) by { pc_mask(x, y, k, 128); }
    assert forall|x: u128, s: u128| s < 128 implies #[trigger] pc(x << s, 128) == pc(x, 128 - s) by { pc_shl(x, s, 128); }
    assert forall|y: u128| (forall|i: int| 0 <= i < 128 ==> !#[trigger] bit(y, i)) implies #[trigger] pc(y, 128) == 0 by { pc_low(y, 128); }
    assert forall|a: [u128; 2], b: [u128; 2], k: int| #![trigger card(b, 256), card(a, k)] 0 <= k <= 256 && (forall|i: int| 0 <= i < 256 ==> (#[trigger] bit2(b, i) <==> bit2(a, i) && i < k)) implies card(b, 256) == card(a, k) by { card_mask(a, b, k, 256); }
}
proof fn lemma_low(s: ByteSet, k: u8) requires s@.contains_key(k) ensures exists|m: u8| is_min(s@, m) decreases k
{ if forall|j: u8| s@.contains_key(j) ==> j >= k { assert(is_min(s@, k)); } else { let j = choose|j: u8| s@.contains_key(j) && j < k; lemma_low(s, j); } }
proof fn lemma_high(s: ByteSet, k: u8) requires s@.contains_key(k) ensures exists|m: u8| is_max(s@, m) decreases 255 - k
{ if forall|j: u8| s@.contains_key(j) ==> j <= k { assert(is_max(s@, k)); } else { let j = choose|j: u8| s@.contains_key(j) && j > k; lemma_high(s, j); } }
