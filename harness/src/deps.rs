//! Conformance of the dependencies to the contracts assumed of them (contracts/vecdeque.vrs,
//! hashmap.vrs, btree.vrs, nonzero.vrs, bits.vrs, order.vrs, array.vrs, keys' scalar functions).
//! Random and exhaustive small cases against the formula in the contract; bounded, never a proof.
use crate::rng::Rng;
use core::cmp::Ordering;
use core::num::NonZeroUsize;
use std::collections::{BTreeMap, VecDeque};
use std::ops::Bound;

pub struct Out { pub cases: u64, pub bad: Vec<String> }
macro_rules! ck { ($o:expr, $c:expr, $($m:tt)*) => { $o.cases += 1; if !$c && $o.bad.len() < 20 { $o.bad.push(format!($($m)*)); } } }

fn interesting(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => 0, 1 => u128::MAX, 2 => 1 << r.below(128), 3 => (1u128 << r.below(128)) - 1, 4 => !((1u128 << r.below(128)) - 1),
        5 => 1 << r.below(128) | 1 << r.below(128), 6 => r.u128() & r.u128() & r.u128(), _ => r.u128(),
    }
}
fn bit(x: u128, i: u32) -> bool { i < 128 && x & (1u128 << i) != 0 }

fn bits(r: &mut Rng, o: &mut Out) {
    for _ in 0..3000 {
        let x = interesting(r);
        let t = x.trailing_zeros();
        ck!(o, if x == 0 { t == 128 } else { t < 128 && bit(x, t) } && (0..t).all(|j| !bit(x, j)), "u128::trailing_zeros({x:#x})");
        let l = x.leading_zeros();
        ck!(o, if x == 0 { l == 128 } else { l < 128 && bit(x, 127 - l) } && (128 - l..128).all(|j| !bit(x, j)), "u128::leading_zeros({x:#x})");
        let t = x.trailing_ones();
        ck!(o, t <= 128 && (t == 128 || !bit(x, t)) && (0..t).all(|j| bit(x, j)), "u128::trailing_ones({x:#x})");
        let l = x.leading_ones();
        ck!(o, l <= 128 && (l == 128 || !bit(x, 127 - l)) && (128 - l..128).all(|j| bit(x, j)), "u128::leading_ones({x:#x})");
        let pc = (0..128).filter(|i| bit(x, *i)).count() as u32;
        ck!(o, x.count_ones() == pc && x.count_zeros() == 128 - pc && x.is_power_of_two() == (pc == 1), "u128::count_ones({x:#x})");
        if x != 0 { let g = x.ilog2(); ck!(o, g < 128 && bit(x, g) && (g + 1..128).all(|j| !bit(x, j)), "u128::ilog2({x:#x})"); }
        for s in [0u32, 1, 63, 64, 127, 128, 129, 255, 256, u32::MAX, r.next() as u32 % 260] {
            ck!(o, x.checked_shl(s) == if s < 128 { Some(x << s) } else { None } && x.checked_shr(s) == if s < 128 { Some(x >> s) } else { None }, "u128::checked_shl/shr({x:#x}, {s})");
        }
    }
}
macro_rules! ints { ($r:ident, $o:ident: $($i:ident $u:ident),*) => { $( for _ in 0..1500 {
    let mut pick = || interesting($r) as $u;
    let (a, b) = (pick(), pick()); let (c, d) = (a as $i, b as $i);
    ck!($o, a.abs_diff(b) == if a < b { b - a } else { a - b }, concat!(stringify!($u), "::abs_diff({}, {})"), a, b);
    ck!($o, c.abs_diff(d) == if c < d { (d as $u).wrapping_sub(c as $u) } else { (c as $u).wrapping_sub(d as $u) }, concat!(stringify!($i), "::abs_diff({}, {})"), c, d);
    ck!($o, c.unsigned_abs() == if c < 0 { (c as $u).wrapping_neg() } else { c as $u }, concat!(stringify!($i), "::unsigned_abs({})"), c);
    ck!($o, c.cast_unsigned() == c as $u && a.cast_signed() == a as $i && c.clone() == c && a.clone() == a, concat!(stringify!($i), " casts of {}"), c);
} )* } }
fn scalars(r: &mut Rng, o: &mut Out) {
    ints!(r, o: i8 u8, i16 u16, i32 u32, i64 u64, i128 u128);
    for a in 0..=255u8 {
        for b in 0..=255u8 { ck!(o, a.abs_diff(b) as i32 == (a as i32 - b as i32).abs(), "u8::abs_diff({a}, {b})"); }
    }
    for b in [false, true] { ck!(o, usize::from(b) == b as usize, "usize::from({b})"); }
    let os = [Ordering::Less, Ordering::Equal, Ordering::Greater];
    for x in os {
        ck!(o, x.is_lt() == (x == os[0]) && x.is_le() == (x != os[2]) && x.is_gt() == (x == os[2]) && x.is_ge() == (x != os[0]) && x.is_eq() == (x == os[1]) && x.is_ne() == (x != os[1]), "Ordering::is_*({x:?})");
        ck!(o, x.reverse() as i8 == -(x as i8), "Ordering::reverse({x:?})");
        for y in os { ck!(o, x.then(y) == if x == os[1] { y } else { x } && (x == y) == (x as i8 == y as i8), "Ordering::then({x:?}, {y:?})"); }
    }
    for _ in 0..2000 {
        let v = match r.below(4) { 0 => 0, 1 => usize::MAX - r.below(3), 2 => r.below(3), _ => r.next() as usize };
        let w = match r.below(4) { 0 => 0, 1 => usize::MAX - r.below(3), 2 => r.below(3), _ => r.next() as usize };
        let n = NonZeroUsize::new(v);
        ck!(o, n.is_none() == (v == 0) && n.map_or(true, |n| n.get() == v), "NonZeroUsize::new({v})");
        if let Some(n) = n {
            let s = v as u128 + w as u128;
            let fits = s <= usize::MAX as u128;
            ck!(o, n.checked_add(w).map(|x| x.get() as u128) == fits.then_some(s), "NonZeroUsize::checked_add({v}, {w})");
            ck!(o, n.saturating_add(w).get() as u128 == if fits { s } else { usize::MAX as u128 }, "NonZeroUsize::saturating_add({v}, {w})");
            if let Some(m) = NonZeroUsize::new(w) { ck!(o, (n == m) == (v == w), "NonZeroUsize::eq({v}, {w})"); }
        }
    }
    ck!(o, NonZeroUsize::MIN.get() == 1, "NonZeroUsize::MIN");
    let mut x = 5; let y = core::mem::replace(&mut x, 7);
    ck!(o, (x, y) == (7, 5), "mem::replace");
    // clone and order of arrays, bool, unit
    for _ in 0..2000 {
        let a: [u8; 4] = core::array::from_fn(|_| r.below(3) as u8);
        let b: [u8; 4] = core::array::from_fn(|_| r.below(3) as u8);
        let f = (0..4).find(|i| a[*i] != b[*i]);
        ck!(o, a.cmp(&b) == f.map_or(Ordering::Equal, |i| a[i].cmp(&b[i])) && (a == b) == f.is_none() && a.partial_cmp(&b) == Some(a.cmp(&b)) && a.clone() == a, "order of arrays {a:?} {b:?}");
    }
    ck!(o, false < true && ().cmp(&()) == Ordering::Equal, "order of bool and ()");
    // array patterns and array helpers
    let [h, t @ ..] = [1, 2, 3]; let [i @ .., l] = &[1, 2, 3];
    ck!(o, h == 1 && t == [2, 3] && *i == [1, 2] && *l == 3, "array patterns");
    for n in 0..5usize {
        let mut v = vec![7u8, 8]; let mut c = 10; v.resize_with(n, || { c += 1; c });
        ck!(o, v.len() == n && (0..n).all(|i| if i < 2 { v[i] == 7 + i as u8 } else { v[i] > 10 }) && v.clone().into_boxed_slice()[..] == v[..], "Vec::resize_with({n})");
    }
    let mut g = generic_array::GenericArray::<Option<u8>, typenum::U5>::default();
    ck!(o, g.len() == 5 && g.iter().all(|x| x.is_none()), "GenericArray::default");
    for i in 0..5 { let old = g.clone(); g[i] = Some(i as u8); ck!(o, (0..5).all(|j| g[j] == if i == j { Some(i as u8) } else { old[j] }), "GenericArray::index_mut({i})"); }
    let mut b = Box::new(4); *b.as_mut() = 6; ck!(o, *b == 6 && *b.as_ref() == 6, "Box::as_mut");
}
fn deque(r: &mut Rng, o: &mut Out) {
    use vec_entry::{Entry, EntryExt};
    for round in 0..300u32 {
        let mut d: VecDeque<u32> = if round % 2 == 0 { VecDeque::from_iter([7]) } else { VecDeque::from([7]) };
        let mut m = vec![7u32];
        let mut fresh = round * 1000;
        for _ in 0..40 {
            fresh += 1;
            let i = r.below(m.len() + 2);
            match r.below(16) {
                0 => { d.push_back(fresh); m.push(fresh); }
                1 => { d.push_front(fresh); m.insert(0, fresh); }
                2 => { let x = d.pop_back(); ck!(o, x == m.pop(), "VecDeque::pop_back"); }
                3 => { let x = d.pop_front(); ck!(o, x == if m.is_empty() { None } else { Some(m.remove(0)) }, "VecDeque::pop_front"); }
                4 | 5 => if i <= m.len() { d.insert(i, fresh); m.insert(i, fresh); },
                6 => { let x = d.remove(i); ck!(o, x == if i < m.len() { Some(m.remove(i)) } else { None }, "VecDeque::remove({i})"); }
                7 => { let j = r.below(m.len() + 1); if i < m.len() && j < m.len() { d.swap(i, j); m.swap(i, j); } }
                8 => { if let Some(x) = d.front_mut() { *x = fresh; } if let Some(x) = m.first_mut() { *x = fresh; } }
                9 => { if let Some(x) = d.back_mut() { *x = fresh; } if let Some(x) = m.last_mut() { *x = fresh; } }
                10 => { if let Some(x) = d.get_mut(i) { *x = fresh; } if let Some(x) = m.get_mut(i) { *x = fresh; } }
                11 => if i < m.len() { d[i] = fresh; m[i] = fresh; },
                _ => {
                    let n = m.len();
                    match d.entry(i) {
                        Entry::Vacant(_) => { ck!(o, i >= n, "vec_entry::entry({i}) vacant of {n}"); }
                        Entry::Occupied(mut e) => {
                            ck!(o, i < n && *e.get() == m[i], "vec_entry::entry({i}) occupied of {n}");
                            match r.below(6) {
                                0 => { *e.get_mut() = fresh; m[i] = fresh; ck!(o, *e.get() == fresh, "OccupiedEntry::get_mut"); }
                                1 => { *e.into_mut() = fresh; m[i] = fresh; }
                                2 => { let x = e.remove(); ck!(o, x == m.remove(i), "OccupiedEntry::remove"); }
                                3 => { let x = e.remove_entry(); ck!(o, x == (i, m.remove(i)), "OccupiedEntry::remove_entry"); }
                                k => {
                                    let out = if k == 4 { None } else { Some(fresh) };
                                    let before = m[i];
                                    if k == 4 { m.remove(i); } else { m[i] = fresh; }
                                    let (e2, ret) = e.replace_entry_with(|k, v| (out, (*k, v)));
                                    ck!(o, ret == (i, before), "replace_entry_with: handed {ret:?}");
                                    let occ = match &e2 { Entry::Occupied(x) => { let g = *x.get(); ck!(o, g == m[i], "replace_entry_with: value after"); true } Entry::Vacant(_) => false };
                                    ck!(o, occ == (i < m.len()), "replace_entry_with: kind of the entry after");
                                }
                            }
                        }
                    }
                }
            }
            ck!(o, d.len() == m.len() && d.is_empty() == m.is_empty() && (0..m.len() + 1).all(|i| d.get(i) == m.get(i)) && (0..m.len()).all(|i| d[i] == m[i]) && d.front() == m.first() && d.back() == m.last(), "VecDeque contents {d:?} {m:?}");
        }
    }
}
fn hash(r: &mut Rng, o: &mut Out) {
    use hashbrown::hash_map::{Entry, RawEntryMut};
    for round in 0..200u32 {
        let mut d: hashbrown::HashMap<u8, u32> = match round % 4 { 0 => Default::default(), 1 => hashbrown::HashMap::from_iter([(3, 3)]), 2 => hashbrown::HashMap::with_hasher(Default::default()), _ => hashbrown::HashMap::with_capacity_and_hasher(9, Default::default()) };
        let mut m: BTreeMap<u8, u32> = BTreeMap::new();
        if round % 4 == 1 { m.insert(3, 3); }
        let mut fresh = 0;
        for _ in 0..60 {
            fresh += 1;
            let k = r.below(8) as u8;
            let was = m.get(&k).copied();
            match r.below(9) {
                0 => { ck!(o, d.insert(k, fresh) == m.insert(k, fresh), "HashMap::insert"); }
                1 => { ck!(o, d.remove(&k) == m.remove(&k), "HashMap::remove"); }
                2 => { ck!(o, d.remove_entry(&k) == m.remove_entry(&k), "HashMap::remove_entry"); }
                3 => { if let Some(x) = d.get_mut(&k) { *x = fresh; } if let Some(x) = m.get_mut(&k) { *x = fresh; } }
                4 | 5 => match d.entry(k) {
                    Entry::Vacant(e) => { ck!(o, was.is_none() && *e.key() == k, "HashMap::entry vacant"); if r.below(2) == 0 { ck!(o, e.into_key() == k, "VacantEntry::into_key"); } else { let x = e.insert(fresh); ck!(o, *x == fresh, "VacantEntry::insert"); *x += 1; m.insert(k, fresh + 1); } }
                    Entry::Occupied(mut e) => {
                        ck!(o, was == Some(*e.get()) && *e.key() == k, "HashMap::entry occupied");
                        match r.below(5) { 0 => { *e.get_mut() = fresh; m.insert(k, fresh); } 1 => { *e.into_mut() = fresh; m.insert(k, fresh); } 2 => { ck!(o, Some(e.remove()) == m.remove(&k), "OccupiedEntry::remove"); } 3 => { ck!(o, Some(e.insert(fresh)) == m.insert(k, fresh), "OccupiedEntry::insert"); } _ => { ck!(o, Some(e.remove_entry()) == m.remove_entry(&k), "OccupiedEntry::remove_entry"); } }
                    }
                },
                _ => match d.raw_entry_mut().from_key(&k) {
                    RawEntryMut::Vacant(e) => { ck!(o, was.is_none(), "raw_entry_mut vacant"); let (a, b) = e.insert(k, fresh); ck!(o, *a == k && *b == fresh, "RawVacantEntryMut::insert"); *b += 1; m.insert(k, fresh + 1); }
                    RawEntryMut::Occupied(mut e) => {
                        ck!(o, was == Some(*e.get()) && *e.key() == k, "raw_entry_mut occupied");
                        match r.below(7) {
                            0 => { *e.get_mut() = fresh; m.insert(k, fresh); } 1 => { *e.into_mut() = fresh; m.insert(k, fresh); }
                            2 => { ck!(o, Some(e.remove()) == m.remove(&k), "RawOccupiedEntryMut::remove"); } 3 => { ck!(o, Some(e.insert(fresh)) == m.insert(k, fresh), "RawOccupiedEntryMut::insert"); }
                            4 => { ck!(o, Some(e.remove_entry()) == m.remove_entry(&k), "RawOccupiedEntryMut::remove_entry"); }
                            n => {
                                let mut handed = None;
                                let e2 = e.replace_entry_with(|a, b| { handed = Some((*a, b)); if n == 5 { None } else { Some(fresh) } });
                                let occ = matches!(&e2, RawEntryMut::Occupied(_));
                                ck!(o, handed == Some((k, was.unwrap())) && occ == (n != 5), "replace_entry_with");
                                if n == 5 { m.remove(&k); } else { m.insert(k, fresh); }
                            }
                        }
                    }
                },
            }
            ck!(o, d.len() == m.len() && d.is_empty() == m.is_empty() && (0..9u8).all(|k| d.get(&k) == m.get(&k) && d.contains_key(&k) == m.contains_key(&k) && d.get_key_value(&k) == m.get_key_value(&k) && d.raw_entry().from_key(&k) == m.get_key_value(&k)) && d.clone() == d, "HashMap contents {d:?} {m:?}");
        }
    }
}
fn btree(r: &mut Rng, o: &mut Out) {
    for round in 0..400u32 {
        let mut d: BTreeMap<u8, u32> = BTreeMap::new();
        let mut m: Vec<(u8, u32)> = vec![];
        let mut fresh = round;
        for _ in 0..25 {
            fresh += 1;
            let k = r.below(9) as u8;
            let at = m.iter().position(|x| x.0 == k);
            match r.below(9) {
                0..=2 => { let x = d.insert(k, fresh); ck!(o, x == at.map(|i| m[i].1), "BTreeMap::insert"); match at { Some(i) => m[i].1 = fresh, None => { m.push((k, fresh)); m.sort(); } } }
                3 => { let x = d.remove(&k); ck!(o, x == at.map(|i| m.remove(i).1), "BTreeMap::remove"); }
                4 => { let x = d.remove_entry(&k); ck!(o, x == at.map(|i| m.remove(i)), "BTreeMap::remove_entry"); }
                5 => { let x = d.pop_first(); ck!(o, x == if m.is_empty() { None } else { Some(m.remove(0)) }, "BTreeMap::pop_first"); }
                6 => { let x = d.pop_last(); ck!(o, x == m.pop(), "BTreeMap::pop_last"); }
                7 => { if let Some(x) = d.get_mut(&k) { *x = fresh; } if let Some(i) = at { m[i].1 = fresh; } }
                _ => {
                    let mk = |r: &mut Rng, x: u8| match r.below(3) { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded };
                    let (a, b) = (r.below(9) as u8, r.below(9) as u8);
                    let (a, b) = (mk(r, a), mk(r, b));
                    let ok = match (a, b) { (Bound::Unbounded, _) | (_, Bound::Unbounded) => true, (Bound::Excluded(x), Bound::Excluded(y)) => x < y, (Bound::Excluded(x) | Bound::Included(x), Bound::Included(y) | Bound::Excluded(y)) => x <= y };
                    if ok {
                        let inside = |k: u8| (match a { Bound::Included(x) => x <= k, Bound::Excluded(x) => x < k, _ => true }) && (match b { Bound::Included(x) => k <= x, Bound::Excluded(x) => k < x, _ => true });
                        let want: Vec<(u8, u32)> = m.iter().copied().filter(|x| inside(x.0)).collect();
                        ck!(o, d.range((a, b)).map(|x| (*x.0, *x.1)).collect::<Vec<_>>() == want, "BTreeMap::range {a:?} {b:?}");
                        ck!(o, d.range((a, b)).rev().map(|x| (*x.0, *x.1)).eq(want.iter().rev().copied()), "BTreeMap::range back {a:?} {b:?}");
                        for (k, v) in d.range_mut((a, b)) { *v += 1; let k = *k; m.iter_mut().for_each(|x| if x.0 == k { x.1 += 1 }); }
                        // both ends, alternating
                        let mut it = d.iter_mut(); let mut s = m.clone();
                        loop {
                            let f = r.below(2) == 0;
                            let x = if f { it.next() } else { it.next_back() };
                            let y = if s.is_empty() { None } else if f { Some(s.remove(0)) } else { s.pop() };
                            ck!(o, x.as_ref().map(|x| (*x.0, *x.1)) == y, "BTreeMap::iter_mut");
                            match x { Some((k, v)) => { *v += 3; let k = *k; m.iter_mut().for_each(|x| if x.0 == k { x.1 += 3 }); } None => break }
                        }
                        ck!(o, d.clone().into_iter().eq(m.iter().copied()) && d.clone().into_iter().rev().eq(m.iter().rev().copied()) && d.range(..k).count() == m.iter().filter(|x| x.0 < k).count() && d.range(..=k).count() == m.iter().filter(|x| x.0 <= k).count() && d.range(k..).count() == m.iter().filter(|x| x.0 >= k).count(), "BTreeMap::into_iter, ranges at {k}");
                    }
                }
            }
            ck!(o, d.len() == m.len() && d.is_empty() == m.is_empty() && d.iter().map(|x| (*x.0, *x.1)).eq(m.iter().copied()) && d.first_key_value().map(|x| (*x.0, *x.1)) == m.first().copied() && d.last_key_value().map(|x| (*x.0, *x.1)) == m.last().copied()
                && (0..10u8).all(|k| { let w = m.iter().find(|x| x.0 == k); d.get(&k).copied() == w.map(|x| x.1) && d.contains_key(&k) == w.is_some() && d.get_key_value(&k).map(|x| (*x.0, *x.1)) == w.copied() }), "BTreeMap contents {d:?} {m:?}");
        }
    }
}
pub fn run(seed: u64) -> Out {
    let mut r = Rng(seed ^ 0xD3B5);
    let mut o = Out { cases: 0, bad: vec![] };
    bits(&mut r, &mut o);
    scalars(&mut r, &mut o);
    deque(&mut r, &mut o);
    hash(&mut r, &mut o);
    btree(&mut r, &mut o);
    o
}
