//! Concrete search on the real crate.
//!   vharness run --focus P03 --seed 1 --secs 3 [--full] [--trace DIR] [--layers a,b]
//!   vharness replay FILE
#![recursion_limit = "2048"]
mod colls;
mod comps;
mod deps;
mod hist;
mod keys;
mod reftree;
mod rng;
#[cfg(feature = "steps")]
mod steps;

use hist::*;
use rng::*;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Found { kind: &'static str, name: String, ops: Vec<String>, msg: String }

struct Shared {
    next: AtomicUsize,
    hist: AtomicU64,
    steps: AtomicU64,
    distinct: AtomicU64,
    maxlen: AtomicUsize,
    stop: AtomicBool,
    found: Mutex<Vec<Found>>,
    cur: Mutex<Vec<Option<(Instant, String, Vec<String>)>>>,
    samples: Mutex<Vec<String>>,
}

/// Iterations (and, times 16, clones) to observe in addition, for the properties about them.
static EXTRA: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn obs(ops: &mut Vec<Op>, keys: &[u128], bits: u32, r: &mut Rng, val: &mut u32, muts: bool) {
    let mask: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut ks: Vec<u128> = vec![];
    for k in keys {
        for d in [*k, k.wrapping_add(1) & mask, k.wrapping_sub(1) & mask] {
            if !ks.contains(&d) { ks.push(d); }
        }
    }
    for e in [0, mask] { if !ks.contains(&e) { ks.push(e); } }
    ops.push(Op::MinMax);
    ops.push(Op::Shape);
    for k in &ks {
        ops.push(Op::Find(*k));
        ops.push(Op::Pred(*k));
        ops.push(Op::Succ(*k));
    }
    if muts {
        for k in &ks {
            *val += 4;
            ops.push(Op::FindMut(*k, *val));
            ops.push(Op::PredMut(*k, *val + 1));
            ops.push(Op::SuccMut(*k, *val + 2));
        }
        *val += 2;
        ops.push(Op::MinMut(*val));
        ops.push(Op::MaxMut(*val + 1));
        ops.push(Op::CloneT(ks[r.below(ks.len())], *val));
    }
    ops.push(Op::Iter(0));
    ops.push(Op::Iter(u64::MAX));
    ops.push(Op::Iter(r.next()));
    for _ in 0..EXTRA.load(Ordering::Relaxed) & 15 { ops.push(Op::Iter(r.next())); }
    for _ in 0..EXTRA.load(Ordering::Relaxed) >> 4 { *val += 2; ops.push(Op::CloneT(ks[r.below(ks.len())], r.next() as u32 & 0xffff)); }
    if muts {
        for k in &ks { ops.push(Op::Find(*k)); }
    }
}

fn exhaustive(i: u64, len: u32, pool: &[u128]) -> Option<Vec<Op>> {
    // base-10 digits of i: 0..4 insert, 4..8 remove, 8 remove_min, 9 remove_max
    let mut ops = vec![];
    let mut x = i;
    if i >= 4 * 10u64.pow(len - 1) { return None; }
    let mut val = 1;
    for n in 0..len {
        let d = if n == 0 { let d = x % 4; x /= 4; d } else { let d = x % 10; x /= 10; d };
        val += 1;
        ops.push(match d { 0..=3 => Op::Ins(pool[d as usize % pool.len()], val), 4..=7 => Op::Rem(pool[(d - 4) as usize % pool.len()]), 8 => Op::RMin, _ => Op::RMax });
    }
    Some(ops)
}

/// Keys which fill one byte of the key (the first or the last), so that parts get full.
fn bulk(r: &mut Rng, bits: u32, val: &mut u32) -> Vec<Op> {
    let ks = bulk_pool(r, bits);
    let mut ops = vec![];
    for k in &ks { *val += 1; ops.push(Op::Ins(*k, *val)); }
    let some: Vec<u128> = (0..6).map(|_| ks[r.below(ks.len())]).collect();
    for _ in 0..r.below(30) {
        *val += 1;
        let k = ks[r.below(ks.len())];
        ops.push(match r.below(6) { 0 | 1 => Op::Rem(k), 2 => Op::RMin, 3 => Op::RMax, 4 => Op::Find(k), _ => Op::Ins(k, *val) });
    }
    let muts = r.below(3) == 0;
    obs(&mut ops, &some, bits, r, val, muts);
    let mut ks = ks;
    for i in (1..ks.len()).rev() { let j = r.below(i + 1); ks.swap(i, j); }
    for k in ks {
        ops.push(Op::Rem(k));
        if r.below(24) == 0 { ops.push(Op::Shape); ops.push(Op::MinMax); let k = some[r.below(6)]; ops.push(Op::Find(k)); ops.push(Op::Succ(k)); ops.push(Op::Pred(k)); }
    }
    ops
}

fn random(r: &mut Rng, bits: u32, heavy: bool, val: &mut u32) -> Vec<Op> {
    if !heavy && bits >= 8 && r.below(12) == 0 { return bulk(r, bits, val); }
    let dense = r.below(3) == 0 && !heavy;
    let np = if dense { 8 + r.below(40) } else { 2 + r.below(6) };
    let keys = pool(r, bits, np);
    let n = if heavy { 4 + r.below(12) } else if dense { 20 + r.below(80) } else { 4 + r.below(24) };
    let grow = r.below(3);
    let mut ops = vec![Op::Ins(keys[0], *val)];
    for _ in 0..n {
        let k = keys[r.below(keys.len())];
        *val += 1;
        ops.push(match r.below(16) {
            0..=5 => Op::Ins(k, *val),
            6 if grow < 2 => Op::RMin,
            7 if grow < 2 => Op::RMax,
            8 | 9 if grow < 2 => Op::Rem(k),
            8 => Op::Rem(k),
            10 => Op::IntoMonad,
            11 => Op::FindMut(k, *val),
            12 => Op::PredMut(k, *val),
            13 => Op::SuccMut(k, *val),
            14 => if r.below(2) == 0 { Op::MinMut(*val) } else { Op::MaxMut(*val) },
            15 => Op::CloneT(k, *val),
            _ => Op::Ins(k, *val),
        });
        if r.below(6) == 0 {
            ops.push(Op::Find(k));
            ops.push(Op::Pred(k));
            ops.push(Op::Succ(k));
            ops.push(Op::MinMax);
            ops.push(Op::Shape);
        }
    }
    let ks: Vec<u128> = if keys.len() > 8 && r.below(4) != 0 { (0..8).map(|_| keys[r.below(keys.len())]).collect() } else { keys };
    obs(&mut ops, &ks, bits, r, val, true);
    // take the tree apart again
    let mut last = vec![];
    if r.below(2) == 0 {
        for k in &ks { last.push(if r.below(3) == 0 { Op::RMax } else { Op::Rem(*k) }); last.push(Op::Shape); last.push(Op::MinMax); }
    } else {
        for _ in 0..ks.len() { last.push(if r.below(2) == 0 { Op::RMin } else { Op::RMax }); last.push(Op::Shape); last.push(Op::MinMax); }
    }
    ops.extend(last);
    ops
}

fn shrink(comp: &comps::Comp, ops: Vec<Op>, want: &str) -> (Vec<Op>, String) {
    let bad = |o: &[Op]| (comp.run)(o, Some(want)).fails.into_iter().find(|f| f.props.contains(&want));
    let mut cur = ops;
    if let Some(f) = bad(&cur) { cur.truncate(f.step + 1); }
    let t0 = Instant::now();
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < Duration::from_secs(3) {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if let Some(f) = bad(&c) { c.truncate(f.step + 1); cur = c; changed = true; } else { i += chunk; }
        }
        if chunk == 1 && !changed || t0.elapsed() >= Duration::from_secs(3) { break; }
        chunk = (chunk / 2).max(1);
    }
    let msg = bad(&cur).map(|f| f.msg).unwrap_or_default();
    (cur, msg)
}

fn shrink_c(c: &colls::Coll, ops: Vec<colls::COp>, want: &str) -> (Vec<colls::COp>, String) {
    let bad = |o: &[colls::COp]| (c.run)(o).into_iter().find(|f| f.props.contains(&want));
    let mut cur = ops;
    let mut i = 0;
    while i < cur.len() {
        let mut n = cur.clone();
        n.remove(i);
        if bad(&n).is_some() { cur = n; i = 0; } else { i += 1; }
    }
    let msg = bad(&cur).map(|f| f.msg).unwrap_or_default();
    (cur, msg)
}

fn hash_ops(name: &str, ops: &[String]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    name.hash(&mut h);
    ops.hash(&mut h);
    h.finish()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

fn emit(found: &[Found], sh: &Shared, key_evals: u64) {
    let mut out = std::io::stdout().lock();
    let f: Vec<String> = found.iter().map(|f| format!("{{\"kind\":{},\"name\":{},\"ops\":[{}],\"msg\":{}}}", jstr(f.kind), jstr(&f.name), f.ops.iter().map(|o| jstr(o)).collect::<Vec<_>>().join(","), jstr(&f.msg))).collect();
    let s: Vec<String> = sh.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
    let _ = writeln!(out, "{{\"histories\":{},\"steps\":{},\"distinct\":{},\"max_elements\":{},\"key_evaluations\":{},\"samples\":[{}],\"found\":[{}]}}",
        sh.hist.load(Ordering::Relaxed), sh.steps.load(Ordering::Relaxed), sh.distinct.load(Ordering::Relaxed), sh.maxlen.load(Ordering::Relaxed), key_evals, s.join(","), f.join(","));
    let _ = out.flush();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&a[2]));
    }
    if a.get(1).map(|s| s.as_str()) == Some("deps") {
        let o = deps::run(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
        println!("{{\"cases\": {}, \"bad\": [{}]}}", o.cases, o.bad.iter().map(|b| format!("{b:?}")).collect::<Vec<_>>().join(", "));
        return;
    }
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let focus: &'static str = Box::leak(opt("--focus").expect("--focus").into_boxed_str());
    EXTRA.store(match focus { "P11" | "P12" => 6, "P19" => 4 << 4, _ => 0 }, Ordering::Relaxed);
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(3.0);
    let full = a.iter().any(|x| x == "--full");
    let trace = opt("--trace");
    // operations to leave out, for those which another property's defect keeps from ending
    let skip: Vec<String> = opt("--skip").map(|s| s.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
    let nthreads = if trace.is_some() { 1 } else { 8 };
    let sh = Arc::new(Shared {
        next: AtomicUsize::new(0), hist: AtomicU64::new(0), steps: AtomicU64::new(0), distinct: AtomicU64::new(0), maxlen: AtomicUsize::new(0),
        stop: AtomicBool::new(false), found: Mutex::new(vec![]), cur: Mutex::new(vec![None; nthreads]), samples: Mutex::new(vec![]),
    });
    #[cfg(feature = "steps")]
    if focus == "P24" {
        let (st, found) = steps::run(seed, secs);
        sh.hist.store(st.histories, Ordering::Relaxed);
        sh.distinct.store(st.histories, Ordering::Relaxed);
        sh.steps.store(st.steps, Ordering::Relaxed);
        *sh.samples.lock().unwrap() = st.most.iter().map(|(n, c, d)| format!("{n}: at most {c} calls for the operations of constant time, {d} for the others")).collect();
        let f: Vec<Found> = found.into_iter().map(|(name, ops, msg)| Found { kind: "steps", name, ops, msg }).collect();
        emit(&f, &sh, 0);
        std::process::exit(if f.is_empty() { 0 } else { 1 });
    }
    let mut key_evals = 0;
    if matches!(focus, "P13" | "P14" | "P15" | "P18") {
        let mut st = keys::KStat::default();
        for f in keys::run(seed, full, if focus == "P18" { secs / 2.0 } else { secs }, focus, &mut st) {
            if f.props.contains(&focus) {
                sh.found.lock().unwrap().push(Found { kind: "key", name: "key".into(), ops: vec![f.case], msg: f.msg });
                break;
            }
        }
        key_evals += st.evals;
    }
    if matches!(focus, "P22" | "P23" | "P18") {
        let mut st = keys::KStat::default();
        for f in keys::small(&mut st) {
            if f.props.contains(&focus) {
                sh.found.lock().unwrap().push(Found { kind: "small", name: "small".into(), ops: vec![f.case], msg: f.msg });
                break;
            }
        }
        key_evals += st.evals;
    }
    if !sh.found.lock().unwrap().is_empty() {
        let f = sh.found.lock().unwrap().clone();
        emit(&f, &sh, key_evals);
        std::process::exit(1);
    }
    if matches!(focus, "P13" | "P14" | "P15" | "P22" | "P23") {
        emit(&[], &sh, key_evals);
        return;
    }
    // tasks: (collections) or (compositions); each gets its slice of the time
    let use_colls = matches!(focus, "P16" | "P17" | "P18");
    let use_comps = !matches!(focus, "P16" | "P17");
    let ncolls = if use_colls { colls::colls().len() } else { 0 };
    let relevant = |c: &comps::Comp| match focus {
        "P10" => c.name.contains("Sized"),
        "P20" => c.name == "ByteSet" || c.name == "Sized/ByteSet",
        "P25" => !c.name.contains("ref") && ["Marker", "Byte", "u16/", "u32/", "i32/", "u64/"].iter().any(|p| c.name.starts_with(p)),
        "P21" => c.name.starts_with("Box/") || c.name.starts_with("BTreeMap"),
        _ => true,
    };
    let comp_ids: Vec<usize> = if use_comps { comps::comps().iter().enumerate().filter(|(_, c)| relevant(c)).map(|(i, _)| i).collect() } else { vec![] };
    let ntasks = ncolls + comp_ids.len();
    let rounds = 2;
    let slice = Duration::from_secs_f64(secs * nthreads as f64 / (ntasks.max(1) * rounds) as f64);
    // a history that does not end is reported by the watchdog
    {
        let sh = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = sh.cur.lock().unwrap().clone();
            for c in cur.into_iter().flatten() {
                if c.0.elapsed() > Duration::from_secs(20) {
                    emit(&[Found { kind: "hang", name: c.1, ops: c.2, msg: "the operation does not end".into() }], &sh, 0);
                    std::process::exit(2);
                }
            }
        });
    }
    let mut hs = vec![];
    for th in 0..nthreads {
        let sh = sh.clone();
        let comp_ids = comp_ids.clone();
        let trace = trace.clone();
        let skip = skip.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let comps = comps::comps();
            let cs = colls::colls();
            let mut seen: HashSet<u64> = HashSet::new();
            loop {
                let i = sh.next.fetch_add(1, Ordering::Relaxed);
                if i >= ntasks * rounds || sh.stop.load(Ordering::Relaxed) { break; }
                let (round, ti) = (i / ntasks, i % ntasks);
                let t0 = Instant::now();
                let mut r = Rng(seed.wrapping_mul(0x1234567).wrapping_add(i as u64));
                let mut n = 0u64;
                let enter = |name: &str, ops: Vec<String>| {
                    if let Some(d) = &trace {
                        let _ = std::fs::write(format!("{d}/trace"), format!("{name}\n{}\n", ops.join("\n")));
                    }
                    sh.cur.lock().unwrap()[th] = Some((Instant::now(), name.to_string(), ops));
                };
                if ti < ncolls {
                    let c = &cs[ti];
                    while t0.elapsed() < slice && !sh.stop.load(Ordering::Relaxed) {
                        let len = 6 + r.below(40);
                        let dense = r.below(3) == 0;
                        let mut ops = colls::history(&mut r, c.bits, len, dense);
                        ops.retain(|o| skip.is_empty() || !skip.iter().any(|s| o.text().split(' ').next() == Some(s)));
                        let txt: Vec<String> = ops.iter().map(|o| o.text()).collect();
                        if n < 200 && seen.insert(hash_ops(c.name, &txt)) { sh.distinct.fetch_add(1, Ordering::Relaxed); }
                        enter(c.name, txt);
                        let fs = (c.run)(&ops);
                        sh.hist.fetch_add(1, Ordering::Relaxed);
                        sh.steps.fetch_add(ops.len() as u64, Ordering::Relaxed);
                        if fs.iter().any(|f| f.props.contains(&focus)) {
                            let (ops, msg) = shrink_c(c, ops, focus);
                            sh.found.lock().unwrap().push(Found { kind: "collection", name: c.name.into(), ops: ops.iter().map(|o| o.text()).collect(), msg });
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                        n += 1;
                    }
                } else {
                    let c = &comps[comp_ids[ti - ncolls]];
                    // the first round enumerates all short histories over four keys; the second is random
                    let mut epool = pool(&mut r, c.bits, 4);
                    let elen = if c.heavy { 3 } else { 4 };
                    let mut ei = 0u64;
                    let mut val = 1;
                    while t0.elapsed() < slice && !sh.stop.load(Ordering::Relaxed) {
                        val = if val > 1 << 30 { 1 } else { val + 1 };
                        let mut ops = if round == 0 {
                            match exhaustive(ei, elen, &epool) {
                                Some(mut o) => { ei += 1; let k = epool.clone(); obs(&mut o, &k, c.bits, &mut r, &mut val, true); o }
                                None => { epool = pool(&mut r, c.bits, 4); ei = 0; continue; }
                            }
                        } else {
                            random(&mut r, c.bits, c.heavy, &mut val)
                        };
                        if !skip.is_empty() { ops.retain(|o| !skip.iter().any(|s| o.text().split(' ').next() == Some(s))); }
                        if trace.is_some() || n % 16 == 0 || c.heavy {
                            let txt: Vec<String> = ops.iter().map(|o| o.text()).collect();
                            if n == 16 && sh.samples.lock().unwrap().len() < 4 {
                                let s: Vec<String> = txt.iter().take(12).cloned().collect();
                                sh.samples.lock().unwrap().push(format!("{}: {} ...", c.name, s.join("; ")));
                            }
                            if seen.insert(hash_ops(c.name, &txt)) { sh.distinct.fetch_add(1, Ordering::Relaxed); }
                            enter(c.name, txt);
                        } else {
                            sh.cur.lock().unwrap()[th] = Some((Instant::now(), c.name.to_string(), vec![format!("history {n} of seed {seed}, task {i}")]));
                        }
                        let o = (c.run)(&ops, Some(focus));
                        sh.hist.fetch_add(1, Ordering::Relaxed);
                        sh.steps.fetch_add(o.steps as u64, Ordering::Relaxed);
                        sh.maxlen.fetch_max(o.max_len, Ordering::Relaxed);
                        if o.fails.iter().any(|f| f.props.contains(&focus)) {
                            let (ops, msg) = shrink(c, ops, focus);
                            sh.found.lock().unwrap().push(Found { kind: "tree", name: c.name.into(), ops: ops.iter().map(|o| o.text()).collect(), msg });
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                        n += 1;
                    }
                }
                sh.cur.lock().unwrap()[th] = None;
            }
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    let found = sh.found.lock().unwrap().clone();
    emit(&found, &sh, key_evals);
    std::process::exit(if found.is_empty() { 0 } else { 1 });
}

/// First line: kind and name; then one operation per line.  Prints every mismatch.
fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut lines = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#'));
    let head = lines.next().expect("head");
    let (kind, name) = head.split_once(' ').expect("kind name");
    let ops: Vec<&str> = lines.collect();
    let mut n = 0;
    match kind {
        "tree" | "hang" => {
            for c in comps::comps() {
                if c.name == name {
                    let ops: Vec<Op> = ops.iter().map(|o| Op::parse(o).expect("op")).collect();
                    for f in (c.run)(&ops, Some("-")).fails { println!("{} {}", f.props.join(","), f.msg); n += 1; }
                }
            }
        }
        "collection" => {
            for c in colls::colls() {
                if c.name == name {
                    let ops: Vec<colls::COp> = ops.iter().map(|o| colls::COp::parse(o).expect("op")).collect();
                    for f in (c.run)(&ops) { println!("{} {}", f.props.join(","), f.msg); n += 1; }
                }
            }
        }
        #[cfg(feature = "steps")]
        "steps" => {
            let ops: Vec<Op> = ops.iter().map(|o| Op::parse(o).expect("op")).collect();
            if let Some(m) = std::thread::Builder::new().stack_size(256 << 20).spawn({ let name = name.to_string(); move || steps::replay(&name, &ops) }).unwrap().join().unwrap() { println!("P24 {m}"); n += 1; }
        }
        "key" => for o in ops { for f in keys::replay(o) { println!("{} {}", f.props.join(","), f.msg); n += 1; } },
        _ => { let mut st = keys::KStat::default(); for f in keys::small(&mut st) { println!("{} {}", f.props.join(","), f.msg); n += 1; } }
    }
    if n > 0 { 1 } else { println!("no mismatch"); 0 }
}
