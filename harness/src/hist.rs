//! Histories of operations on one tree, compared step by step with a `BTreeMap` model.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::VebTree;

pub trait HKey: Ord + Clone + Debug + 'static {
    const BITS: u32;
    fn from_raw(r: u128) -> Self;
}
pub trait HVal: Clone + PartialEq + Debug + 'static {
    fn mk(n: u32) -> Self;
}
impl HVal for u32 {
    fn mk(n: u32) -> Self { n }
}
impl HVal for () {
    fn mk(_: u32) -> Self {}
}
/// A value whose copies are heap allocations, so that values mixed up by a clone or a swap show.
impl HVal for String {
    fn mk(n: u32) -> Self { format!("v{n}") }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Ins(u128, u32),
    Rem(u128),
    RMin,
    RMax,
    IntoMonad,
    FindMut(u128, u32),
    PredMut(u128, u32),
    SuccMut(u128, u32),
    MinMut(u32),
    MaxMut(u32),
    CloneT(u128, u32),
    Find(u128),
    Pred(u128),
    Succ(u128),
    MinMax,
    Shape,
    Iter(u64),
}

impl Op {
    pub fn text(&self) -> String {
        use Op::*;
        match *self {
            Ins(k, v) => format!("insert {k} {v}"),
            Rem(k) => format!("remove {k}"),
            RMin => "remove_min".into(),
            RMax => "remove_max".into(),
            IntoMonad => "into_monad".into(),
            FindMut(k, v) => format!("find_mut {k} {v}"),
            PredMut(k, v) => format!("predecessor_mut {k} {v}"),
            SuccMut(k, v) => format!("successor_mut {k} {v}"),
            MinMut(v) => format!("min_val_mut {v}"),
            MaxMut(v) => format!("max_val_mut {v}"),
            CloneT(k, v) => format!("clone {k} {v}"),
            Find(k) => format!("find {k}"),
            Pred(k) => format!("predecessor {k}"),
            Succ(k) => format!("successor {k}"),
            MinMax => "min_max".into(),
            Shape => "shape".into(),
            Iter(p) => format!("iter {p}"),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        use Op::*;
        let w: Vec<&str> = s.split_whitespace().collect();
        let k = |i: usize| -> Option<u128> { w.get(i)?.parse().ok() };
        let v = |i: usize| -> Option<u32> { w.get(i)?.parse().ok() };
        Some(match *w.first()? {
            "insert" => Ins(k(1)?, v(2)?),
            "remove" => Rem(k(1)?),
            "remove_min" => RMin,
            "remove_max" => RMax,
            "into_monad" => IntoMonad,
            "find_mut" => FindMut(k(1)?, v(2)?),
            "predecessor_mut" => PredMut(k(1)?, v(2)?),
            "successor_mut" => SuccMut(k(1)?, v(2)?),
            "min_val_mut" => MinMut(v(1)?),
            "max_val_mut" => MaxMut(v(1)?),
            "clone" => CloneT(k(1)?, v(2)?),
            "find" => Find(k(1)?),
            "predecessor" => Pred(k(1)?),
            "successor" => Succ(k(1)?),
            "min_max" => MinMax,
            "shape" => Shape,
            "iter" => Iter(w.get(1)?.parse().ok()?),
            _ => return None,
        })
    }
    /// The property the operation's own result belongs to.
    pub fn prop(&self) -> &'static str {
        use Op::*;
        match self {
            Ins(..) => "P01",
            Find(_) | FindMut(..) => "P02",
            Pred(_) | PredMut(..) => "P03",
            Succ(_) | SuccMut(..) => "P04",
            MinMax | MinMut(_) | MaxMut(_) => "P05",
            Rem(_) => "P06",
            RMin | RMax => "P07",
            IntoMonad | Shape => "P08",
            Iter(_) => "P11",
            CloneT(..) => "P19",
        }
    }
    pub fn is_mut_access(&self) -> bool {
        use Op::*;
        matches!(self, FindMut(..) | PredMut(..) | SuccMut(..) | MinMut(_) | MaxMut(_))
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub props: Vec<&'static str>,
    pub step: usize,
    pub msg: String,
}

/// What a composition can do beyond `VebTree`.
pub struct Caps<T> {
    /// `clone`, or `clone_from` over another value
    pub clone: Option<fn(&T, Option<T>) -> T>,
    /// exact number of elements, where the type promises one (with the property it belongs to)
    pub len: Option<(fn(&T) -> usize, &'static str)>,
    /// `len_hint` promises the exact size, with the property it belongs to
    pub exact: Option<&'static str>,
    /// the `len` of an iterator, where it promises one, after steps from the front and the back
    pub ilen: Option<fn(&T, usize, usize) -> usize>,
    /// extra properties a failure counts for, by composition (boxed trees, map wrappers, ...)
    pub family: &'static [&'static str],
}

pub struct Outcome {
    pub fails: Vec<Fail>,
    pub steps: usize,
    pub max_len: usize,
}

fn pred<K: HKey, V>(m: &BTreeMap<K, V>, k: &K) -> Option<K> {
    m.range(..k.clone()).next_back().map(|(k, _)| k.clone())
}
fn succ<K: HKey, V>(m: &BTreeMap<K, V>, k: &K) -> Option<K> {
    use std::ops::Bound::*;
    m.range((Excluded(k.clone()), Unbounded)).next().map(|(k, _)| k.clone())
}

/// Runs a history.  Keeps going after a mismatch as long as a tree is left, so that a check for
/// one property is not blinded by a mismatch of another.
pub fn run<T, K, V>(ops: &[Op], caps: &Caps<T>, want: Option<&str>) -> Outcome
where
    T: VebTree<Key = K, Value = V>,
    K: HKey,
    V: HVal,
{
    let mut fails: Vec<Fail> = vec![];
    let mut model: BTreeMap<K, V> = BTreeMap::new();
    let mut tree: Option<T> = None;
    let mut max_len = 0;
    let mut steps = 0;
    // the last mutable access, to attribute a later wrong value to it
    let mut wrote = false;
    for (step, op) in ops.iter().enumerate() {
        steps += 1;
        let t = tree.take();
        let before = fails.len();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut fs: Vec<(Vec<&'static str>, String)> = vec![];
            let t = one(op, t, &mut model, caps, &mut fs);
            (t, fs)
        }));
        if op.is_mut_access() {
            wrote = true;
        }
        match res {
            Ok((t, fs)) => {
                tree = t;
                for (mut props, msg) in fs {
                    if wrote && msg.contains("value") && !props.contains(&"P09") {
                        props.push("P09");
                    }
                    props.extend_from_slice(caps.family);
                    if props.contains(&"P01") || props.contains(&"P02") { props.push("P25"); }
                    fails.push(Fail { props, step, msg: format!("step {step} `{}`: {msg}", op.text()) });
                }
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let mut props = vec![op.prop(), "P18", "P25"];
                if op.is_mut_access() { props.push("P09"); }
                if matches!(op, Op::Iter(_)) { props.push("P12"); }
                props.extend_from_slice(caps.family);
                fails.push(Fail { props, step, msg: format!("step {step} `{}`: panicked: {m}", op.text()) });
                break;
            }
        }
        if tree.is_none() && !model.is_empty() {
            // the tree is lost although the model still has elements (a mismatch was recorded)
            break;
        }
        if tree.is_some() && model.is_empty() {
            break;
        }
        max_len = max_len.max(model.len());
        if let Some(w) = want {
            if fails[before..].iter().any(|f| f.props.contains(&w)) {
                break;
            }
        } else if fails.len() > before {
            break;
        }
    }
    Outcome { fails, steps, max_len }
}

fn same<K: HKey, V: HVal>(
    got: Option<(K, V)>,
    want: Option<(K, V)>,
    prop: &'static str,
    mutable: bool,
    fs: &mut Vec<(Vec<&'static str>, String)>,
) {
    if got != want {
        let what = match (&got, &want) {
            (Some(a), Some(b)) if a.0 == b.0 => "value",
            (Some(_), Some(_)) => "key",
            _ => "presence",
        };
        let mut p = vec![prop];
        if mutable { p.push("P09"); }
        fs.push((p, format!("wrong {what}: got {got:?}, expected {want:?}")));
    }
}

fn one<T, K, V>(
    op: &Op,
    tree: Option<T>,
    model: &mut BTreeMap<K, V>,
    caps: &Caps<T>,
    fs: &mut Vec<(Vec<&'static str>, String)>,
) -> Option<T>
where
    T: VebTree<Key = K, Value = V>,
    K: HKey,
    V: HVal,
{
    use Op::*;
    let mut t = match (tree, op) {
        (Some(t), _) => t,
        (None, Ins(k, v)) => {
            let (k, v) = (K::from_raw(*k), V::mk(*v));
            model.insert(k.clone(), v.clone());
            let t = T::from_monad(k, v);
            if !t.is_monad() {
                fs.push((vec!["P08"], "from_monad gives a tree that is not a monad".into()));
            }
            return Some(t);
        }
        (None, _) => return None,
    };
    let kv = |m: &BTreeMap<K, V>, k: Option<K>| k.map(|k| (k.clone(), m[&k].clone()));
    match *op {
        Ins(k, v) => {
            let k = K::from_raw(k);
            let want = model.get(&k).map(|v| (k.clone(), v.clone()));
            model.insert(k.clone(), V::mk(v));
            let got = t.insert(k, V::mk(v));
            same(got, want, "P01", false, fs);
        }
        Rem(k) => {
            let k = K::from_raw(k);
            let want = model.remove(&k).map(|v| (k.clone(), v));
            return match t.remove(k.clone()) {
                Ok((nt, got)) => {
                    same(Some(got), want, "P06", false, fs);
                    if nt.is_some() == model.is_empty() {
                        fs.push((vec!["P06"], format!("remaining tree present: {}, elements left: {}", nt.is_some(), model.len())));
                    }
                    nt
                }
                Err(nt) => {
                    same(None, want, "P06", false, fs);
                    Some(nt)
                }
            };
        }
        RMin | RMax => {
            let k = if *op == RMin { model.keys().next() } else { model.keys().next_back() }.cloned().unwrap();
            let v = model.remove(&k).unwrap();
            let (nt, got) = if *op == RMin { t.remove_min() } else { t.remove_max() };
            same(Some(got), Some((k, v)), "P07", false, fs);
            if nt.is_some() == model.is_empty() {
                fs.push((vec!["P07"], format!("remaining tree present: {}, elements left: {}", nt.is_some(), model.len())));
            }
            return nt;
        }
        IntoMonad => {
            return match t.into_monad() {
                Ok(got) => {
                    if model.len() == 1 {
                        let want = model.pop_first();
                        same(Some(got), want, "P08", false, fs);
                    } else {
                        fs.push((vec!["P08"], format!("into_monad succeeded on {} elements", model.len())));
                        model.clear();
                    }
                    None
                }
                Err(t) => {
                    if model.len() == 1 {
                        fs.push((vec!["P08"], "into_monad failed on one element".into()));
                    }
                    Some(t)
                }
            };
        }
        Find(k) => {
            let k = K::from_raw(k);
            let want = model.get(&k).map(|v| (k.clone(), v.clone()));
            same(t.find(&k).map(|(k, v)| ((*k).clone(), v.clone())), want.clone(), "P02", false, fs);
            same(t.find(k).map(|(k, v)| ((*k).clone(), v.clone())), want, "P02", false, fs);
        }
        Pred(k) => {
            let k = K::from_raw(k);
            let want = kv(model, pred(model, &k));
            same(t.predecessor(&k).map(|(k, v)| ((*k).clone(), v.clone())), want, "P03", false, fs);
        }
        Succ(k) => {
            let k = K::from_raw(k);
            let want = kv(model, succ(model, &k));
            same(t.successor(&k).map(|(k, v)| ((*k).clone(), v.clone())), want, "P04", false, fs);
        }
        MinMax => {
            let (k, v) = t.min_val();
            same(Some(((*k).clone(), v.clone())), kv(model, model.keys().next().cloned()), "P05", false, fs);
            drop(k);
            let (k, v) = t.max_val();
            same(Some(((*k).clone(), v.clone())), kv(model, model.keys().next_back().cloned()), "P05", false, fs);
        }
        FindMut(k, v) => {
            let k = K::from_raw(k);
            let want = model.get(&k).map(|v| (k.clone(), v.clone()));
            let got = t.find_mut(&k).map(|(k, r)| ((*k).clone(), std::mem::replace(r, V::mk(v))));
            same(got, want.clone(), "P02", true, fs);
            if let Some((k, _)) = want { model.insert(k, V::mk(v)); }
        }
        PredMut(k, v) => {
            let k = K::from_raw(k);
            let want = kv(model, pred(model, &k));
            let got = t.predecessor_mut(&k).map(|(k, r)| ((*k).clone(), std::mem::replace(r, V::mk(v))));
            same(got, want.clone(), "P03", true, fs);
            if let Some((k, _)) = want { model.insert(k, V::mk(v)); }
        }
        SuccMut(k, v) => {
            let k = K::from_raw(k);
            let want = kv(model, succ(model, &k));
            let got = t.successor_mut(&k).map(|(k, r)| ((*k).clone(), std::mem::replace(r, V::mk(v))));
            same(got, want.clone(), "P04", true, fs);
            if let Some((k, _)) = want { model.insert(k, V::mk(v)); }
        }
        MinMut(v) => {
            let want = kv(model, model.keys().next().cloned());
            let got = { let (k, r) = t.min_val_mut(); ((*k).clone(), std::mem::replace(r, V::mk(v))) };
            same(Some(got), want.clone(), "P05", true, fs);
            if let Some((k, _)) = want { model.insert(k, V::mk(v)); }
        }
        MaxMut(v) => {
            let want = kv(model, model.keys().next_back().cloned());
            let got = { let (k, r) = t.max_val_mut(); ((*k).clone(), std::mem::replace(r, V::mk(v))) };
            same(Some(got), want.clone(), "P05", true, fs);
            if let Some((k, _)) = want { model.insert(k, V::mk(v)); }
        }
        CloneT(k, v) => {
            let Some(cl) = caps.clone else { return Some(t) };
            let (want, kr) = (walk(&t), k);
            let c = if v % 3 == 0 {
                // over a tree with other contents, which the copy may reuse
                let mut o = cl(&t, None);
                let (k, x) = (K::from_raw(k ^ 1), V::mk(v.wrapping_add(1)));
                let o = match (v / 3) % 4 {
                    0 => { o.insert(k, x); o.remove_min().0 }
                    1 => {
                        o.insert(k, x);
                        o.insert(K::from_raw(kr.wrapping_add(3)), V::mk(v));
                        o.insert(K::from_raw(!kr), V::mk(v));
                        Some(o)
                    }
                    2 => {
                        let mut o = o;
                        loop { match o.remove_max() { (Some(n), _) if n.is_monad() => break Some(n), (Some(n), _) => o = n, (None, _) => break None } }
                    }
                    _ => Some(T::from_monad(k, x)),
                };
                cl(&t, o)
            } else {
                cl(&t, None)
            };
            // change the original: the copy must keep the old contents
            t.insert(K::from_raw(k), V::mk(v));
            { let (_, r) = t.min_val_mut(); *r = V::mk(v); }
            let (t, _) = t.remove_max();
            drop(t);
            let got = walk(&c);
            if got != want {
                fs.push((vec!["P19"], format!("the copy holds {got:?}, the original held {want:?}")));
            }
            for (k, v) in &want {
                if c.find(k).map(|(k, v)| ((*k).clone(), v.clone())) != Some((k.clone(), v.clone())) {
                    fs.push((vec!["P19"], format!("the copy does not find {k:?}")));
                }
            }
            return Some(c);
        }
        Shape => {
            let n = model.len();
            if t.is_monad() != (n == 1) {
                fs.push((vec!["P08"], format!("is_monad is {} with {n} elements", t.is_monad())));
            }
            let (lo, hi) = t.len_hint();
            if lo > n || hi.is_some_and(|h| h < n) {
                fs.push((vec!["P08"], format!("len_hint ({lo}, {hi:?}) with {n} elements")));
            }
            if let Some(p) = caps.exact {
                if (lo, hi) != (n, Some(n)) {
                    fs.push((vec![p], format!("len_hint ({lo}, {hi:?}) with {n} elements, exact expected")));
                }
            }
            if let Some(f) = caps.ilen {
                for (a, b) in [(0, 0), (1, 0), (0, 1), (2, 1), (n, 0), (n, 1)] {
                    if f(&t, a, b) != n.saturating_sub(a + b) {
                        fs.push((vec!["P12"], format!("len of the iterator after {a} steps and {b} from the back is {} with {n} elements", f(&t, a, b))));
                        break;
                    }
                }
            }
            if let Some((f, p)) = caps.len {
                if f(&t) != n {
                    fs.push((vec![p], format!("len is {} with {n} elements", f(&t))));
                }
            }
        }
        Iter(p) => {
            let mut it = veb_tree::Iter::from(&t);
            let mut want: std::collections::VecDeque<(K, V)> = model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let mut p = p;
            let mut after = 0;
            while after < 3 {
                let n = want.len();
                let (lo, hi) = it.size_hint();
                if lo > n || hi.is_some_and(|h| h < n) {
                    fs.push((vec!["P12"], format!("size_hint ({lo}, {hi:?}) with {n} entries to come")));
                    break;
                }
                if caps.exact.is_some() && (lo, hi) != (n, Some(n)) {
                    fs.push((vec!["P12"], format!("size_hint ({lo}, {hi:?}) with {n} entries to come, exact expected")));
                    break;
                }
                if (p >> 1) & 15 == 13 && after == 0 {
                    // the rest through a provided method, which the iterator may override
                    let c = |(k, v): (veb_tree::key::MaybeBorrowed<'_, K>, &V)| ((*k).clone(), v.clone());
                    let j = (p >> 9) as usize % (n + 2);
                    // those would not return from an iteration without end
                    let all = model.len();
                    if veb_tree::Iter::from(&t).take(all + 1).count() > all || veb_tree::Iter::from(&t).rev().take(all + 1).count() > all {
                        fs.push((vec!["P11"], format!("more than the {all} entries are yielded")));
                        break;
                    }
                    let (name, ok) = match (p >> 6) & 7 {
                        0 => ("nth", it.nth(j).map(c) == want.get(j).cloned() && it.map(c).eq(want.into_iter().skip(j + 1))),
                        1 => ("nth_back", it.nth_back(j).map(c) == (if j < n { want.get(n - 1 - j).cloned() } else { None }) && it.map(c).eq(want.into_iter().take(n.saturating_sub(j + 1)))),
                        2 => ("last", it.last().map(c) == want.pop_back()),
                        3 => ("count", it.count() == n),
                        4 => ("rev", it.rev().map(c).eq(want.into_iter().rev())),
                        5 => ("fold", it.fold(vec![], |mut a, x| { a.push(c(x)); a }).into_iter().eq(want)),
                        6 => ("rfold", it.rfold(vec![], |mut a, x| { a.push(c(x)); a }).into_iter().eq(want.into_iter().rev())),
                        _ => ("find", it.find(|x| Some(&(*x.0).clone()) == want.get(j).map(|w| &w.0)).map(c) == want.get(j).cloned() && it.map(c).eq(want.into_iter().skip(j + 1))),
                    };
                    if !ok { fs.push((vec!["P11"], format!("{name} with {n} entries to come"))); }
                    return Some(t);
                }
                let back = p & 1 == 1;
                p = p.rotate_right(1);
                let (got, want) = if back {
                    (it.next_back(), want.pop_back())
                } else {
                    (it.next(), want.pop_front())
                };
                if want.is_none() { after += 1; }
                let got = got.map(|(k, v)| ((*k).clone(), v.clone()));
                if got != want {
                    fs.push((vec!["P11"], format!("{}: got {got:?}, expected {want:?}", if back { "next_back" } else { "next" })));
                    break;
                }
            }
        }
    }
    Some(t)
}

fn walk<T, K, V>(t: &T) -> Vec<(K, V)>
where
    T: VebTree<Key = K, Value = V>,
    K: HKey,
    V: HVal,
{
    let mut out = vec![];
    let (k, v) = t.min_val();
    let mut cur = ((*k).clone(), v.clone());
    loop {
        let k = cur.0.clone();
        out.push(cur);
        if out.len() > 100_000 { return out; }
        match t.successor(&k) {
            Some((k, v)) => cur = ((*k).clone(), v.clone()),
            None => return out,
        }
    }
}

