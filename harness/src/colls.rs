//! Collections of trees: histories of collection operations against a map of maps.
use crate::hist::*;
use crate::reftree::*;
use crate::rng::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::markers::*;
use veb_tree::VebTree;

#[derive(Clone, Copy, Debug)]
pub enum COp { Ins(u128, u8, u32), Rem(u128, u8), RMin(u128), RMax(u128), Miss(u128), Get(u128), GetMut(u128, u8, u32), Gone(u128), Whole(u128, bool), Swap(u128, u8, u32, bool) }

impl COp {
    pub fn text(&self) -> String {
        use COp::*;
        match *self {
            Ins(h, l, v) => format!("insert_key {h} {l} {v}"),
            Rem(h, l) => format!("maybe_remove_key {h} {l}"),
            RMin(h) => format!("remove_key_min {h}"),
            RMax(h) => format!("remove_key_max {h}"),
            Miss(h) => format!("maybe_remove_refused {h}"),
            Get(h) => format!("get {h}"),
            GetMut(h, l, v) => format!("get_mut {h} {l} {v}"),
            Gone(h) => format!("remove_key_absent {h}"),
            Whole(h, m) => format!("{}remove_key_whole_tree {h}", if m { "maybe_" } else { "" }),
            Swap(h, l, v, m) => format!("{}remove_key_other_tree {h} {l} {v}", if m { "maybe_" } else { "" }),
        }
    }
    pub fn parse(s: &str) -> Option<COp> {
        use COp::*;
        let w: Vec<&str> = s.split_whitespace().collect();
        let h = |i: usize| -> Option<u128> { w.get(i)?.parse().ok() };
        let l = |i: usize| -> Option<u8> { w.get(i)?.parse().ok() };
        let v = |i: usize| -> Option<u32> { w.get(i)?.parse().ok() };
        Some(match *w.first()? {
            "insert_key" => Ins(h(1)?, l(2)?, v(3)?),
            "maybe_remove_key" => Rem(h(1)?, l(2)?),
            "remove_key_min" => RMin(h(1)?),
            "remove_key_max" => RMax(h(1)?),
            "maybe_remove_refused" => Miss(h(1)?),
            "get" => Get(h(1)?),
            "remove_key_absent" => Gone(h(1)?),
            "remove_key_whole_tree" => Whole(h(1)?, false),
            "maybe_remove_key_whole_tree" => Whole(h(1)?, true),
            "remove_key_other_tree" => Swap(h(1)?, l(2)?, v(3)?, false),
            "maybe_remove_key_other_tree" => Swap(h(1)?, l(2)?, v(3)?, true),
            "get_mut" => GetMut(h(1)?, l(2)?, v(3)?),
            _ => return None,
        })
    }
    fn prop(&self) -> &'static str {
        use COp::*;
        match self { Ins(..) | Get(_) | GetMut(..) => "P16", _ => "P17" }
    }
}

type Model<H, V> = BTreeMap<H, BTreeMap<u8, V>>;

fn tree_eq<T: VebTree<Key = u8, Value = V>, V: HVal>(t: &T, m: &BTreeMap<u8, V>) -> bool {
    (0..=255u8).all(|k| t.find(k).map(|(_, v)| v.clone()) == m.get(&k).cloned())
}

pub fn run<C, H, V>(ops: &[COp]) -> Vec<Fail>
where
    H: HKey,
    V: HVal,
    C: TreeCollection<Hi = H>,
    C::Tree: VebTree<Key = u8, Value = V>,
{
    use COp::*;
    let mut m: Model<H, V> = BTreeMap::new();
    let mut c: Option<C> = None;
    let mut fails: Vec<Fail> = vec![];
    for (step, op) in ops.iter().enumerate() {
        let cur = c.take();
        let r = catch_unwind(AssertUnwindSafe(|| -> (Option<C>, Vec<String>) {
            let mut fs = vec![];
            let Some(mut c) = cur else {
                if let Ins(h, l, v) = *op {
                    let h = H::from_raw(h);
                    m.insert(h.clone(), BTreeMap::from([(l, V::mk(v))]));
                    return (Some(C::create(&h, C::Tree::from_monad(l, V::mk(v)))), fs);
                }
                return (None, fs);
            };
            let after = |m: &mut Model<H, V>, h: &H, l: u8, r: (Option<(C, bool)>, (u8, V)), fs: &mut Vec<String>| -> Option<C> {
                let sub = m.get_mut(h).unwrap();
                let v = sub.remove(&l).unwrap();
                let gone = sub.is_empty();
                if gone { m.remove(h); }
                if r.1 != (l, v.clone()) { fs.push(format!("removed {:?}, expected {:?}", r.1, (l, v))); }
                match (r.0, m.is_empty()) {
                    (None, true) => None,
                    (None, false) => { fs.push("the collection is gone although trees are left".into()); None }
                    (Some((c, b)), e) => {
                        if e { fs.push("a collection without trees is returned".into()); }
                        if b != gone { fs.push(format!("reports tree emptied {b}, expected {gone}")); }
                        Some(c)
                    }
                }
            };
            match *op {
                Ins(h, l, v) => {
                    let h = H::from_raw(h);
                    let had = m.contains_key(&h);
                    let old = m.entry(h.clone()).or_default().insert(l, V::mk(v)).map(|v| (l, v));
                    match c.insert_key(h.clone(), (l, V::mk(v))) {
                        Ok(hh) => if had || hh != h { fs.push(format!("Ok({hh:?}), had a tree: {had}")) },
                        Err((hh, o)) => if !had || hh != h || o != old { fs.push(format!("Err(({hh:?}, {o:?})), had a tree: {had}, expected {old:?}")) },
                    }
                }
                Rem(h, l) => {
                    let h = H::from_raw(h);
                    let has = m.get(&h).is_some_and(|s| s.contains_key(&l));
                    match c.maybe_remove_key(&h, |t| t.remove(l)) {
                        Ok(r) if has => return (after(&mut m, &h, l, r, &mut fs), fs),
                        Ok(_) => { fs.push("removed an absent key".into()); return (None, fs); }
                        Err(x) => { if has { fs.push("did not find the key".into()); } c = x; }
                    }
                }
                Miss(h) => {
                    match c.maybe_remove_key(H::from_raw(h), |t| Err(t)) {
                        Ok(_) => { fs.push("refused removal reported as done".into()); return (None, fs); }
                        Err(x) => c = x,
                    }
                }
                RMin(h) | RMax(h) => {
                    let h = H::from_raw(h);
                    if let Some(s) = m.get(&h) {
                        let min = matches!(op, RMin(_));
                        let l = if min { *s.keys().next().unwrap() } else { *s.keys().next_back().unwrap() };
                        let r = c.remove_key(&h, |t| if min { t.remove_min() } else { t.remove_max() });
                        return (after(&mut m, &h, l, r, &mut fs), fs);
                    }
                }
                // removals which leave another tree than `remove_min` would, or none
                Whole(h, maybe) | Swap(h, _, _, maybe) => {
                    let h = H::from_raw(h);
                    if let Some(s) = m.get_mut(&h) {
                        let left = if let Swap(_, l, v, _) = *op { Some((l, V::mk(v))) } else { None };
                        let l = *s.keys().next().unwrap();
                        let v = s.remove(&l).unwrap();
                        *s = left.iter().cloned().collect();
                        let tree = left.clone();
                        let f = move |t: C::Tree| (tree.map(|(l, v)| C::Tree::from_monad(l, v)), t.remove_min().1);
                        let r = if maybe { match c.maybe_remove_key(&h, |t| Ok(f(t))) { Ok(r) => r, Err(_) => { fs.push("refused although the tree is there".into()); return (None, fs); } } } else { c.remove_key(&h, f) };
                        let gone = left.is_none();
                        if r.1 != (l, v.clone()) { fs.push(format!("removed {:?}, expected {:?}", r.1, (l, v))); }
                        if gone { BTreeMap::remove(&mut m, &h); }
                        return (match (r.0, m.is_empty()) {
                            (None, true) => None,
                            (None, false) => { fs.push("the collection is gone although trees are left".into()); None }
                            (Some((c, b)), e) => {
                                if e { fs.push("a collection without trees is returned".into()); }
                                if b != gone { fs.push(format!("reports tree emptied {b}, expected {gone}")); }
                                Some(c)
                            }
                        }, fs);
                    }
                }
                Gone(h) => {
                    // documented to panic where there is no tree; the collection is lost to the panic
                    let h = H::from_raw(h);
                    if !m.contains_key(&h) {
                        if catch_unwind(AssertUnwindSafe(|| { let _ = c.remove_key(&h, |t| t.remove_min()); })).is_ok() {
                            fs.push("returned instead of panicking, with no tree at this key".into());
                        }
                        return (None, fs);
                    }
                }
                Get(h) => {
                    let h = H::from_raw(h);
                    match (c.get(&h), m.get(&h)) {
                        (None, None) => {}
                        (Some(t), Some(s)) => if !tree_eq(t, s) { fs.push("the tree at this key holds other elements".into()) },
                        (g, w) => fs.push(format!("tree present: {}, expected {}", g.is_some(), w.is_some())),
                    }
                }
                GetMut(h, l, v) => {
                    let h = H::from_raw(h);
                    match (c.get_mut(&h), m.get_mut(&h)) {
                        (None, None) => {}
                        (Some(t), Some(s)) => {
                            if !tree_eq(t, s) { fs.push("the tree at this key holds other elements".into()) }
                            t.insert(l, V::mk(v));
                            s.insert(l, V::mk(v));
                        }
                        (g, w) => fs.push(format!("tree present: {}, expected {}", g.is_some(), w.is_some())),
                    }
                }
            }
            (Some(c), fs)
        }));
        match r {
            Ok((nc, fs)) => {
                c = nc;
                for msg in fs { fails.push(Fail { props: vec![op.prop()], step, msg: format!("step {step} `{}`: {msg}", op.text()) }); }
            }
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                fails.push(Fail { props: vec![op.prop(), "P18"], step, msg: format!("step {step} `{}`: panicked: {msg}", op.text()) });
                break;
            }
        }
        if c.is_none() != m.is_empty() { break; }
    }
    fails
}

pub struct Coll { pub name: &'static str, pub bits: u32, pub run: fn(&[COp]) -> Vec<Fail> }

pub fn colls() -> Vec<Coll> {
    let mut v = vec![];
    macro_rules! c { ($name:expr, $k:ty, $hi:ty, $val:ty, $m:ty) => {
        v.push(Coll { name: $name, bits: <$hi as HKey>::BITS,
            run: run::<<$m as VebTreeCollectionMarker<$k, $val>>::TreeCollection, $hi, $val> });
    } }
    c!("hash/u8", u16, u8, u32, HashMapMarker<RefMarker>);
    c!("byte/u8", [u8; 2], u8, String, ByteCollectionMarker<VecDequeMarker, RefMarker>);
    c!("byte/u8-set", [u8; 2], u8, (), ByteCollectionMarker<VecDequeMarker, ByteSetMarker>);
    c!("array/u8", [u8; 2], u8, u32, ArrayTreeCollectionMarker<BoxMarker<RefMarker>>);
    c!("generic-array/u8", [u8; 2], u8, u32, ArrayTreeCollectionMarker<GenericArrayMarker<RefMarker>>);
    v.push(Coll { name: "hash/[u8;2]", bits: 16, run: run::<hash::H<[u8; 2], RefTree<u8, String>>, [u8; 2], String> });
    v.push(Coll { name: "hash/i64", bits: 64, run: run::<hash::H<i64, RefTree<u8, u32>>, i64, u32> });
    v.push(Coll { name: "box/hash/i64", bits: 64, run: run::<Box<hash::H<i64, RefTree<u8, u32>>>, i64, u32> });
    v.push(Coll { name: "box/array/u8", bits: 8, run: run::<Box<<ArrayTreeCollectionMarker<BoxMarker<RefMarker>> as VebTreeCollectionMarker<[u8; 2], u32>>::TreeCollection>, u8, u32> });
    v
}
mod hash { pub type H<K, V> = hashbrown::HashMap<K, V>; }

pub fn history(r: &mut Rng, bits: u32, n: usize, dense: bool) -> Vec<COp> {
    use COp::*;
    if bits >= 8 && r.below(12) == 0 {
        let mut hs = bulk_pool(r, bits);
        let mut ops: Vec<COp> = hs.iter().map(|h| Ins(*h, 7, 1)).collect();
        for _ in 0..r.below(30) {
            let h = hs[r.below(hs.len())];
            ops.push(match r.below(5) { 0 => Ins(h, r.next() as u8, 2), 1 => Rem(h, 7), 2 => RMin(h), 3 => GetMut(h, 9, 3), _ => Get(h) });
        }
        for i in (1..hs.len()).rev() { let j = r.below(i + 1); hs.swap(i, j); }
        for h in hs { ops.push(Rem(h, 7)); if r.below(32) == 0 { ops.push(Get(h)); } }
        return ops;
    }
    let np = if dense { 12 } else { 2 + r.below(4) };
    let hs = pool(r, bits, np);
    let ls: Vec<u8> = (0..if dense { 3 } else { 1 + r.below(3) }).map(|_| r.next() as u8).collect();
    let mut ops = vec![];
    let mut val = 0;
    for _ in 0..n {
        let (h, l) = (hs[r.below(hs.len())], ls[r.below(ls.len())]);
        val += 1;
        ops.push(match r.below(14) {
            12 => Whole(h, r.below(2) == 0),
            13 => Swap(h, l, val, r.below(2) == 0),
            0..=4 => Ins(h, l, val),
            5 | 6 => Rem(h, l),
            7 => RMin(h),
            8 => RMax(h),
            9 => Miss(h),
            10 => Get(h),
            _ => GetMut(h, l, val),
        });
    }
    for h in hs.iter() { ops.push(Get(*h)); }
    if r.below(3) == 0 { ops.push(Gone(if r.below(2) == 0 { hs[r.below(hs.len())] } else { r.next() as u128 })); }
    ops
}
