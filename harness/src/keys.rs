//! Key types: splitting, joining, ordering, indexing.
use crate::hist::HKey;
use crate::rng::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use typenum::Unsigned;
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef, U2, U4};

pub struct KFail { pub props: Vec<&'static str>, pub case: String, pub msg: String }
#[derive(Default)]
pub struct KStat { pub evals: u64 }

/// The order the key is documented to have, independent of its `Ord`.
pub trait Rank { fn rank(&self) -> Vec<i128>; }
macro_rules! rk { ($($t:ty),*) => { $(impl Rank for $t { fn rank(&self) -> Vec<i128> { vec![*self as i128] } })* } }
rk!(u8, u16, u32, u64, i8, i16, i32, i64, i128, bool);
impl Rank for u128 { fn rank(&self) -> Vec<i128> { vec![(*self >> 1) as i128, (*self & 1) as i128] } }
impl Rank for () { fn rank(&self) -> Vec<i128> { vec![] } }
impl Rank for U4 { fn rank(&self) -> Vec<i128> { vec![u8::from(*self) as i128] } }
impl Rank for U2 { fn rank(&self) -> Vec<i128> { vec![u8::from(U4::from(*self)) as i128] } }
impl<T: Rank, const N: usize> Rank for [T; N] { fn rank(&self) -> Vec<i128> { self.iter().flat_map(|x| x.rank()).collect() } }

fn one<K>(raw: u128, raw2: u128, out: &mut Vec<(Vec<&'static str>, String)>)
where
    K: HKey + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo> + Rank + PartialEq,
    K::Hi: Clone + Rank + std::fmt::Debug,
    K::Lo: Clone + Rank + std::fmt::Debug,
{
    let (k, k2) = (K::from_raw(raw), K::from_raw(raw2));
    let (hi, lo) = k.clone().split_val();
    let (hi2, lo2) = k2.clone().split_val();
    let j = K::join(MaybeBorrowed::Owned(hi.clone()), MaybeBorrowed::Owned(lo.clone()));
    let jb = K::join(MaybeBorrowed::Borrowed(&hi), MaybeBorrowed::Borrowed(&lo));
    if j != k || jb != k || j.rank() != k.rank() {
        out.push((vec!["P13"], format!("join(split({k:?})) = {j:?} / {jb:?}")));
    }
    // any pair of parts is a key again, and splits into these parts
    let x = K::join(MaybeBorrowed::Owned(hi.clone()), MaybeBorrowed::Borrowed(&lo2));
    let (xh, xl) = x.clone().split_val();
    if xh != hi || xl != lo2 || xh.rank() != hi.rank() || xl.rank() != lo2.rank() {
        out.push((vec!["P13"], format!("split(join({hi:?}, {lo2:?})) = ({xh:?}, {xl:?})")));
    }
    let r = k.split_ref(|h, l| (h.clone(), l.clone()));
    if r.0.rank() != hi.rank() || r.1.rank() != lo.rank() {
        out.push((vec!["P13"], format!("split_ref({k:?}) = {r:?}, split_val gives ({hi:?}, {lo:?})")));
    }
    let want = k.rank().cmp(&k2.rank());
    let got = (hi.clone(), lo.clone()).cmp(&(hi2.clone(), lo2.clone()));
    let key = k.cmp(&k2);
    if want != got || want != key || k.partial_cmp(&k2) != Some(want) || (k == k2) != want.is_eq() {
        out.push((vec!["P14"], format!("{k:?} against {k2:?}: key order {key:?}, order of the parts {got:?}, expected {want:?}")));
    }
}

fn idx<K: HKey + SizedVebKey + PartialEq + Rank>(raw: u128, raw2: u128, out: &mut Vec<(Vec<&'static str>, String)>) {
    let (k, k2) = (K::from_raw(raw), K::from_raw(raw2));
    let card = <K::Cardinality as Unsigned>::U128;
    let (i, i2) = (k.index(), k2.index());
    if i as u128 >= card {
        out.push((vec!["P15"], format!("index({k:?}) = {i}, cardinality {card}")));
    }
    // the constant says the same as the type, as far as `usize` can
    let cst = K::CARDINALITY as u128;
    if cst != card.min(usize::MAX as u128) {
        out.push((vec!["P15"], format!("the constant CARDINALITY is {cst}, the type Cardinality {card}")));
    }
    if (k.rank() == k2.rank()) != (i == i2) {
        out.push((vec!["P15"], format!("index({k:?}) = {i} and index({k2:?}) = {i2}")));
    }
}

type F = fn(u128, u128, &mut Vec<(Vec<&'static str>, String)>);
pub struct KeyType { pub name: &'static str, pub bits: u32, pub f: F, pub signed: bool }

pub fn types() -> Vec<KeyType> {
    let mut v = vec![];
    macro_rules! k { ($($t:ty),*) => { $(v.push(KeyType { name: stringify!($t), bits: <$t as HKey>::BITS, f: one::<$t>, signed: stringify!($t).starts_with('i') });)* } }
    macro_rules! ki { ($($t:ty),*) => { $(v.push(KeyType { name: concat!("index ", stringify!($t)), bits: <$t as HKey>::BITS, f: idx::<$t>, signed: stringify!($t).starts_with('i') });)* } }
    k!((), u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, U4, U2);
    k!([u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 16]);
    k!([i16; 2], [i8; 3], [u32; 4], [i16; 5], [u16; 6], [i8; 7], [i16; 8], [i8; 16]);
    ki!((), u8, i8, u16, i16, u32, i32, u64, i64, U4, U2);
    v
}

fn call(t: &KeyType, a: u128, b: u128, fails: &mut Vec<KFail>) {
    let mut out = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| (t.f)(a, b, &mut out)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let p = if t.name.starts_with("index") { vec!["P15", "P18"] } else { vec!["P13", "P14", "P18"] };
        out.push((p, format!("panicked: {m}")));
    }
    for (props, msg) in out {
        fails.push(KFail { props, case: format!("{} {a} {b}", t.name.replace(' ', "_")), msg: format!("{}: {msg}", t.name) });
    }
}

pub fn replay(case: &str) -> Vec<KFail> {
    let w: Vec<&str> = case.split_whitespace().collect();
    let n = w.len();
    let name = w[..n - 2].join(" ").replace('_', " ");
    let mut fails = vec![];
    for t in types() {
        if t.name == name { call(&t, w[n - 2].parse().unwrap(), w[n - 1].parse().unwrap(), &mut fails); }
    }
    fails
}

/// Every key of up to 16 bits; samples of all; then, until `secs` have passed, keys of up to 32
/// bits (`full`) or more samples.  Ends at the first failure of the wanted property.
pub fn run(seed: u64, full: bool, secs: f64, want: &str, st: &mut KStat) -> Vec<KFail> {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    let ts = types();
    let mut handles = vec![];
    let want: &'static str = Box::leak(want.to_string().into_boxed_str());
    let stop = Arc::new(AtomicBool::new(false));
    let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(secs);
    for (ti, t) in ts.into_iter().enumerate() {
        if want == "P15" && !t.name.starts_with("index") { continue; }
        if (want == "P13" || want == "P14") && t.name.starts_with("index") { continue; }
        let stop = stop.clone();
        handles.push(std::thread::spawn(move || {
            let mut fails: Vec<KFail> = vec![];
            let mut evals = 0u64;
            let mut go = |a: u128, b: u128, fails: &mut Vec<KFail>| -> bool {
                let n = fails.len();
                call(&t, a, b, fails);
                evals += 1;
                if fails.len() > n {
                    if fails[n..].iter().any(|f| f.props.contains(&want)) { stop.store(true, Ordering::Relaxed); return false; }
                    fails.truncate(n);
                }
                true
            };
            let mut r = Rng(seed.wrapping_mul(1000003).wrapping_add(ti as u64));
            // in numeric order, each key with its successor: order is preserved on the whole
            // domain when it is on every neighbouring pair
            let n = if t.bits >= 64 { 0 } else { 1u128 << t.bits };
            let off = if t.signed && t.bits > 0 { n / 2 } else { 0 };
            let mut pair = |i: u128, fails: &mut Vec<KFail>| -> bool {
                let a = (i + off) % n;
                let b = if i + 1 < n { (i + 1 + off) % n } else { a };
                go(a, b, fails)
            };
            if t.bits <= 16 {
                for i in 0..n {
                    if !pair(i, &mut fails) { return (fails, evals); }
                    if i % 64 == 0 && stop.load(Ordering::Relaxed) { return (fails, evals); }
                }
            }
            drop(pair);
            let mut sample = |r: &mut Rng, fails: &mut Vec<KFail>| -> bool {
                let p = pool(r, t.bits, 8);
                for a in &p { for b in &p { if !go(*a, *b, fails) { return false; } } }
                true
            };
            for i in 0..2000 {
                if stop.load(Ordering::Relaxed) || (i > 50 && std::time::Instant::now() > end) || !sample(&mut r, &mut fails) { return (fails, evals); }
            }
            if full && t.bits > 16 {
                let mut i = 0u128;
                loop {
                    if i % 4096 == 0 && (stop.load(Ordering::Relaxed) || std::time::Instant::now() > end) { break; }
                    if t.bits <= 32 {
                        if i >= n { break; }
                        let a = (i + off) % n;
                        let b = if i + 1 < n { (i + 1 + off) % n } else { a };
                        if !go(a, b, &mut fails) { break; }
                    } else {
                        let p = pool(&mut r, t.bits, 4);
                        let mut bad = false;
                        for a in &p { for b in &p { bad = bad || !go(*a, *b, &mut fails); } }
                        if bad { break; }
                    }
                    i += 1;
                }
            }
            (fails, evals)
        }));
    }
    let mut fails = vec![];
    for h in handles { let (f, e) = h.join().unwrap(); fails.extend(f); st.evals += e; }
    fails
}

/// Equal as numbers modulo ten.
#[derive(Clone, Debug)]
struct Mod(u32, u8);
impl PartialEq for Mod { fn eq(&self, o: &Mod) -> bool { self.0 % 10 == o.0 % 10 } }
struct Wide(u32);
impl PartialEq<Mod> for Wide { fn eq(&self, o: &Mod) -> bool { self.0 == o.0 } }
struct Never;
impl PartialEq for Never { fn eq(&self, _: &Never) -> bool { false } }

/// Every comparison of `x` with `y` is that of the numbers `a` and `b`, and equal values hash alike.
fn ordered<T: Copy + Ord + std::hash::Hash>(x: &T, y: &T, a: &u8, b: &u8) -> bool {
    use std::hash::{DefaultHasher, Hasher};
    let h = |t: &T| { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() };
    x.partial_cmp(y) == a.partial_cmp(b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)
        && (x != y) == (a != b) && (*x).max(*y) == (if a > b { *x } else { *y }) && (*x).min(*y) == (if a < b { *x } else { *y })
        && (a != b || h(x) == h(y))
}

/// counts how often it has been copied
struct Copied(u32);
impl Clone for Copied { fn clone(&self) -> Self { Copied(self.0 + 1) } }

/// Small integers (P23) and `MaybeBorrowed` (P22): all cases are enumerated.
pub fn small(st: &mut KStat) -> Vec<KFail> {
    let mut fails = vec![];
    let mut bad = |p: &'static str, ok: bool, msg: String| {
        st.evals += 1;
        if !ok { fails.push(KFail { props: vec![p], case: format!("small {msg}"), msg }); }
    };
    let n4 = |x: U4| u8::from(x);
    let n2 = |x: U2| u8::from(U4::from(x));
    let r = catch_unwind(AssertUnwindSafe(|| {
        for a in 0..=255u8 {
            let (x4, x2) = (U4::from(a), U2::from(a));
            bad("P23", n4(x4) == a & 15, format!("U4::from({a}) = {}", n4(x4)));
            bad("P23", n2(x2) == a & 3, format!("U2::from({a}) = {}", n2(x2)));
            bad("P23", n2(U2::from(x4)) == a & 3, format!("U2::from(U4 {a}) = {}", n2(U2::from(x4))));
            bad("P23", bool::from(x2) == (a & 1 == 1), format!("bool::from(U2 {a}) = {}", bool::from(x2)));
            for b in 0..16u8 {
                let y4 = U4::from(b);
                let y2 = U2::from(b);
                bad("P23", n4(x4 | y4) == (a | b) & 15, format!("U4 {a} | {b} = {}", n4(x4 | y4)));
                bad("P23", n2(x2 | y2) == (a | b) & 3, format!("U2 {a} | {b} = {}", n2(x2 | y2)));
                bad("P23", (x4 == y4) == (a & 15 == b) && x4.cmp(&y4) == (a & 15).cmp(&b), format!("U4 {a} against {b}"));
                bad("P23", (x2 == y2) == (a & 3 == b & 3) && x2.cmp(&y2) == (a & 3).cmp(&(b & 3)), format!("U2 {a} against {b}"));
                bad("P23", ordered(&x4, &y4, &(a & 15), &b), format!("U4 {a} ordered against {b}"));
                bad("P23", ordered(&x2, &y2, &(a & 3), &(b & 3)), format!("U2 {a} ordered against {b}"));
            }
            for s in 0..8usize {
                bad("P23", n4(x4 << s) == ((a & 15) << s) & 15, format!("U4 {a} << {s} = {}", n4(x4 << s)));
                bad("P23", n4(x4 >> s) == (a & 15) >> s, format!("U4 {a} >> {s} = {}", n4(x4 >> s)));
                bad("P23", n2(x2 << s) == ((a & 3) << s) & 3, format!("U2 {a} << {s} = {}", n2(x2 << s)));
                bad("P23", n2(x2 >> s) == (a & 3) >> s, format!("U2 {a} >> {s} = {}", n2(x2 >> s)));
            }
        }
        bad("P23", U4::MAX == 15 && U2::MAX == 3 && U4::BITS == 4 && U2::BITS == 2, "MAX/BITS".into());
        for a in 0..3u8 { for b in 0..3u8 {
            let (ba, bb) = (MaybeBorrowed::Borrowed(&a), MaybeBorrowed::Borrowed(&b));
            let (oa, ob) = (MaybeBorrowed::<u8>::from(a), MaybeBorrowed::Owned(b));
            for x in [&ba, &oa] { for y in [&bb, &ob] {
                bad("P22", (x == y) == (a == b) && (x != y) == (a != b), format!("MaybeBorrowed {a} == {b}"));
            } }
            for x in [ba, oa] {
                bad("P22", *x == a, format!("deref of {a}"));
                bad("P22", *MaybeBorrowed::borrow(&x) == a, format!("borrow of {a}"));
                bad("P22", *<MaybeBorrowed<'_, u8> as std::borrow::Borrow<u8>>::borrow(&x) == a, format!("Borrow of {a}"));
                let c = x.clone();
                bad("P22", c == x && matches!(c, MaybeBorrowed::Owned(_)) == matches!(x, MaybeBorrowed::Owned(_)), format!("clone of {a}"));
                bad("P22", x.into_or_clone() == a, format!("into_or_clone of {a}"));
            }
            bad("P22", matches!(MaybeBorrowed::from(&a), MaybeBorrowed::Borrowed(p) if std::ptr::eq(p, &a)), "from(&)".into());
            bad("P22", matches!(MaybeBorrowed::from(a), MaybeBorrowed::Owned(x) if x == a), "from(owned)".into());
        } }
        // equality of handles is that of the values, whatever it is and whoever owns them
        let fs = [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY];
        for (i, a) in fs.iter().enumerate() { for (j, b) in fs.iter().enumerate() {
            let (x, y) = (MaybeBorrowed::Borrowed(a), MaybeBorrowed::Borrowed(b));
            let (ox, oy) = (MaybeBorrowed::Owned(*a), MaybeBorrowed::Owned(*b));
            for u in [x, ox] { for v in [y, oy] { bad("P22", (u == v) == (a == b) && (u != v) == (a != b), format!("equality of values {i} and {j} ({a} and {b})")); } }
            bad("P22", x.into_or_clone().to_bits() == a.to_bits() && ox.into_or_clone().to_bits() == a.to_bits(), format!("into_or_clone of {a}"));
        } }
        let qs = [Mod(3, 0), Mod(13, 1), Mod(4, 2), Mod(3, 3)];
        for a in &qs { for b in &qs {
            for u in [MaybeBorrowed::Borrowed(a), MaybeBorrowed::Owned(a.clone())] { for v in [MaybeBorrowed::Borrowed(b), MaybeBorrowed::Owned(b.clone())] {
                bad("P22", (u == v) == (a == b) && (u != v) == !(a == b), format!("equality of {a:?} and {b:?}"));
            } }
            let e = MaybeBorrowed::Borrowed(a).into_or_clone();
            bad("P22", (e.0, e.1) == (a.0, a.1), format!("into_or_clone of {a:?}"));
        } }
        for (k, u) in [(1u32, 1u64), (1, 2), (0, 0)] {
            let (a, b) = (Wide(k), Mod(u as u32, 9));
            for x in [MaybeBorrowed::Borrowed(&a), MaybeBorrowed::Owned(Wide(k))] { for y in [MaybeBorrowed::Borrowed(&b), MaybeBorrowed::Owned(b.clone())] {
                bad("P22", (x == y) == (a == b), format!("equality of {k} and {u} of two types"));
            } }
        }
        let (n, o) = (Never, MaybeBorrowed::Owned(Never));
        bad("P22", MaybeBorrowed::Borrowed(&n) != MaybeBorrowed::Borrowed(&n) && o != o && MaybeBorrowed::Borrowed(&n) != o, "equality of values never equal".into());
        // an owned value is given up itself, not a copy of it
        bad("P22", MaybeBorrowed::Owned(Copied(0)).into_or_clone().0 == 0, "into_or_clone of an owned value which its copies differ from".into());
        for t in ["", "a", "key of some length"] {
            let own = t.to_string();
            for x in [MaybeBorrowed::Borrowed(&own), MaybeBorrowed::Owned(own.clone())] {
                bad("P22", *x == own && *MaybeBorrowed::borrow(&x) == own && x.clone() == x && x.clone().into_or_clone() == own && x.into_or_clone() == own, format!("handle of {t:?}"));
            }
        }
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        fails.push(KFail { props: vec!["P22", "P23", "P18"], case: "small panic".into(), msg: format!("panicked: {m}") });
    }
    fails
}
