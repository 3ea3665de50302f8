proof fn keyof(s: ByteSet, i: int) requires 0 <= i < 256 ensures bit2(s.0, i) <==> s@.contains_key(i as u8) {}
proof fn rank_same(a: ByteSet, b: ByteSet, n: int) requires b@ == a@, 0 <= n <= 256 ensures card(b.0, n) == card(a.0, n) decreases n
{ if n > 0 { rank_same(a, b, n - 1); keyof(a, n - 1); keyof(b, n - 1); } }
proof fn rank_ins(a: ByteSet, b: ByteSet, k: u8, n: int) requires b@ == a@.insert(k, ()), 0 <= n <= 256 ensures card(b.0, n) == card(a.0, n) + if k < n && !a@.contains_key(k) { 1int } else { 0 } decreases n
{ if n > 0 { rank_ins(a, b, k, n - 1); keyof(a, n - 1); keyof(b, n - 1); assert(b@.contains_key((n - 1) as u8) == (a@.contains_key((n - 1) as u8) || (n - 1) as u8 == k)); } }
proof fn rank_rem(a: ByteSet, b: ByteSet, k: u8, n: int) requires b@ == a@.remove(k), 0 <= n <= 256 ensures card(b.0, n) == card(a.0, n) - if k < n && a@.contains_key(k) { 1int } else { 0 } decreases n
{ if n > 0 { rank_rem(a, b, k, n - 1); keyof(a, n - 1); keyof(b, n - 1); assert(b@.contains_key((n - 1) as u8) == (a@.contains_key((n - 1) as u8) && (n - 1) as u8 != k)); } }
proof fn rank_min(s: ByteSet, m: u8) requires is_min(s@, m) ensures card(s.0, m as int) == 0
{ assert forall|i: int| 0 <= i < m implies !#[trigger] bit2(s.0, i) by { keyof(s, i); } card_zero(s.0, 0, m as int); }
proof fn rank_max(s: ByteSet, m: u8) requires is_max(s@, m) ensures card(s.0, m as int) == card(s.0, 256) - 1
{ assert forall|i: int| m < i < 256 implies !#[trigger] bit2(s.0, i) by { keyof(s, i); } card_zero(s.0, m + 1, 256); }
proof fn rank_wf(s: ByteSet) ensures s.wf() <==> 1 <= card(s.0, 256), card(s.0, 256) <= 256
{
    card_mono(s.0, 0, 256);
    if s.wf() { s.lemma_count(); }
    else { lemma_bits(); assert forall|i: int| 0 <= i < 256 implies !#[trigger] bit2(s.0, i) by {} card_zero(s.0, 0, 256); }
}
proof fn rank_single(a: ByteSet, k: u8) requires a@ == IMap::<u8, ()>::empty().insert(k, ()) ensures card(a.0, 256) == 1, card(a.0, k as int) == 0
{
    assert(a@.contains_key(k));
    assert(is_min(a@, k)); assert(is_max(a@, k)); rank_min(a, k); rank_max(a, k);
}
pub proof fn lemma_ranks()
    ensures
        forall|s: ByteSet, j: u8| #![trigger card(s.0, j as int)] 0 <= card(s.0, j as int) <= card(s.0, 256) && (s@.contains_key(j) ==> card(s.0, j as int) < card(s.0, 256)),
        forall|s: ByteSet, i: u8, j: u8| #![trigger card(s.0, i as int), card(s.0, j as int)] i <= j ==> card(s.0, i as int) <= card(s.0, j as int) && (i < j && s@.contains_key(i) ==> card(s.0, i as int) < card(s.0, j as int)),
        forall|s: ByteSet, m: u8| #[trigger] is_min(s@, m) ==> card(s.0, m as int) == 0,
        forall|s: ByteSet, m: u8| #[trigger] is_max(s@, m) ==> card(s.0, m as int) == card(s.0, 256) - 1,
        forall|s: ByteSet| #![trigger card(s.0, 256)] (s.wf() <==> 1 <= card(s.0, 256)) && card(s.0, 256) <= 256,
        forall|s: ByteSet, i: u8, j: u8| #![trigger card(s.0, 256), s@.contains_key(i), s@.contains_key(j)] card(s.0, 256) == 1 && s@.contains_key(i) && s@.contains_key(j) ==> i == j,
        forall|a: ByteSet, b: ByteSet, k: u8, j: u8| #![trigger a@.insert(k, ()), card(b.0, j as int)] b@ == a@.insert(k, ()) ==> card(b.0, j as int) == card(a.0, j as int) + if k < j && !a@.contains_key(k) { 1int } else { 0 },
        forall|a: ByteSet, b: ByteSet, k: u8| #![trigger a@.insert(k, ()), b@] b@ == a@.insert(k, ()) ==> card(b.0, 256) == card(a.0, 256) + if a@.contains_key(k) { 0int } else { 1 },
        forall|a: ByteSet, b: ByteSet, j: u8| #![trigger card(b.0, j as int), card(a.0, j as int)] b@ == a@ ==> card(b.0, j as int) == card(a.0, j as int),
        forall|a: ByteSet, b: ByteSet| #![trigger card(b.0, 256), card(a.0, 256)] b@ == a@ ==> card(b.0, 256) == card(a.0, 256),
        forall|a: ByteSet, b: ByteSet, k: u8, j: u8| #![trigger a@.remove(k), card(b.0, j as int)] b@ == a@.remove(k) ==> card(b.0, j as int) == card(a.0, j as int) - if k < j && a@.contains_key(k) { 1int } else { 0 },
        forall|a: ByteSet, b: ByteSet, k: u8| #![trigger a@.remove(k), b@] b@ == a@.remove(k) ==> card(b.0, 256) == card(a.0, 256) - if a@.contains_key(k) { 1int } else { 0 },
        forall|a: ByteSet, k: u8| #![trigger IMap::<u8, ()>::empty().insert(k, ()), a@] a@ == IMap::<u8, ()>::empty().insert(k, ()) ==> card(a.0, 256) == 1 && card(a.0, k as int) == 0,
{
    assert forall|s: ByteSet, j: u8| #![trigger card(s.0, j as int)] 0 <= card(s.0, j as int) <= card(s.0, 256) && (s@.contains_key(j) ==> card(s.0, j as int) < card(s.0, 256)) by { card_mono(s.0, 0, j as int); card_mono(s.0, j as int, 256);  }
    assert forall|s: ByteSet, i: u8, j: u8| #![trigger card(s.0, i as int), card(s.0, j as int)] i <= j ==> card(s.0, i as int) <= card(s.0, j as int) && (i < j && s@.contains_key(i) ==> card(s.0, i as int) < card(s.0, j as int)) by { if i <= j { card_mono(s.0, i as int, j as int); } if i < j && s@.contains_key(i) { card_mono(s.0, i as int, i + 1); card_mono(s.0, i + 1, j as int); } }
    assert forall|s: ByteSet, m: u8| #[trigger] is_min(s@, m) implies card(s.0, m as int) == 0 by { rank_min(s, m); }
    assert forall|s: ByteSet, m: u8| #[trigger] is_max(s@, m) implies card(s.0, m as int) == card(s.0, 256) - 1 by { rank_max(s, m); }
    assert forall|s: ByteSet| #![trigger card(s.0, 256)] (s.wf() <==> 1 <= card(s.0, 256)) && card(s.0, 256) <= 256 by { rank_wf(s); }
    assert forall|s: ByteSet, i: u8, j: u8| #![trigger card(s.0, 256), s@.contains_key(i), s@.contains_key(j)] card(s.0, 256) == 1 && s@.contains_key(i) && s@.contains_key(j) ==> i == j by { if s@.contains_key(i) && s@.contains_key(j) { if i < j { card_two(s.0, i as int, j as int, 256); } else if j < i { card_two(s.0, j as int, i as int, 256); } } }
    assert forall|a: ByteSet, b: ByteSet, k: u8, j: u8| #![trigger a@.insert(k, ()), card(b.0, j as int)] b@ == a@.insert(k, ()) ==> card(b.0, j as int) == card(a.0, j as int) + if k < j && !a@.contains_key(k) { 1int } else { 0 } by { if b@ == a@.insert(k, ()) { rank_ins(a, b, k, j as int); } }
    assert forall|a: ByteSet, b: ByteSet, k: u8| #![trigger a@.insert(k, ()), b@] b@ == a@.insert(k, ()) ==> card(b.0, 256) == card(a.0, 256) + if a@.contains_key(k) { 0int } else { 1 } by { if b@ == a@.insert(k, ()) { rank_ins(a, b, k, 256); } }
    assert forall|a: ByteSet, b: ByteSet, j: u8| #![trigger card(b.0, j as int), card(a.0, j as int)] b@ == a@ ==> card(b.0, j as int) == card(a.0, j as int) by { if b@ == a@ { rank_same(a, b, j as int); } }
    assert forall|a: ByteSet, b: ByteSet| #![trigger card(b.0, 256), card(a.0, 256)] b@ == a@ ==> card(b.0, 256) == card(a.0, 256) by { if b@ == a@ { rank_same(a, b, 256); } }
    assert forall|a: ByteSet, b: ByteSet, k: u8, j: u8| #![trigger a@.remove(k), card(b.0, j as int)] b@ == a@.remove(k) ==> card(b.0, j as int) == card(a.0, j as int) - if k < j && a@.contains_key(k) { 1int } else { 0 } by { if b@ == a@.remove(k) { rank_rem(a, b, k, j as int); } }
    assert forall|a: ByteSet, b: ByteSet, k: u8| #![trigger a@.remove(k), b@] b@ == a@.remove(k) ==> card(b.0, 256) == card(a.0, 256) - if a@.contains_key(k) { 1int } else { 0 } by { if b@ == a@.remove(k) { rank_rem(a, b, k, 256); } }
    assert forall|a: ByteSet, k: u8| #![trigger IMap::<u8, ()>::empty().insert(k, ()), a@] a@ == IMap::<u8, ()>::empty().insert(k, ()) ==> card(a.0, 256) == 1 && card(a.0, k as int) == 0 by { if a@ == IMap::<u8, ()>::empty().insert(k, ()) { rank_single(a, k); } }
}
