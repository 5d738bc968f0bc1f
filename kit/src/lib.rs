//! Shared scaffolding for obligations.
//!
//! An obligation body is generic over `Src`, the source of its universally quantified
//! inputs.  Under Kani every draw is `kani::any()` (the obligation is then proved for all
//! values); natively the same body is run on enumerated/random/recorded draws (bounded
//! search, and replay of a verifier counterexample against the real code).

use std::cell::RefCell;

pub trait Src {
    /// An arbitrary 64-bit value.
    fn u64(&mut self) -> u64;
    /// An arbitrary value in `0..n` (n > 0).
    fn below(&mut self, n: u64) -> u64;
    fn assume(&mut self, c: bool);
    /// A case label in `0..n`: the proof covers only case `v`; the native search covers all.
    fn case(&mut self, n: u64, v: u64) -> u64;

    fn usize(&mut self) -> usize { self.u64() as usize }
    fn u32(&mut self) -> u32 { self.u64() as u32 }
    fn u16(&mut self) -> u16 { self.u64() as u16 }
    fn u8(&mut self) -> u8 { self.u64() as u8 }
    fn i64(&mut self) -> i64 { self.u64() as i64 }
    fn i32(&mut self) -> i32 { self.u64() as i32 }
    fn i16(&mut self) -> i16 { self.u64() as i16 }
    fn i8(&mut self) -> i8 { self.u64() as i8 }
    fn bool(&mut self) -> bool { self.below(2) == 1 }
    fn char(&mut self) -> char {
        let v = self.below(0x110000 - 0x800) as u32;
        let v = if v >= 0xd800 { v + 0x800 } else { v };
        // SAFETY-free: v is a scalar value by construction
        char::from_u32(v).unwrap()
    }
}

#[cfg(kani)]
pub fn fixed_keys() -> std::hash::RandomState {
    // RandomState is two u64 keys
    unsafe { std::mem::transmute::<[u64; 2], std::hash::RandomState>([0, 0]) }
}
#[cfg(kani)]
pub struct KaniSrc;
#[cfg(kani)]
impl Src for KaniSrc {
    fn u64(&mut self) -> u64 { kani::any::<u64>() }
    fn below(&mut self, n: u64) -> u64 { let v = kani::any::<u64>(); kani::assume(v < n); v }
    fn assume(&mut self, c: bool) { kani::assume(c) }
    fn case(&mut self, _n: u64, v: u64) -> u64 { v }
}

/// A named obligation: `chk!(s, condition, "label")`.
#[macro_export]
macro_rules! chk {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        { kani::assert($c, $l); }
        #[cfg(not(kani))]
        { if !($c) { $crate::fail($l); } }
    }};
}

/// Vacuity guard: the point must be reachable.
#[macro_export]
macro_rules! reach {
    ($l:literal) => {{
        #[cfg(kani)]
        { kani::cover!(true, $l); }
        #[cfg(not(kani))]
        { $crate::reached($l); }
    }};
}

pub struct Failed(pub String);
pub struct Discard;

thread_local! {
    pub static REACHED: RefCell<std::collections::BTreeMap<&'static str, u64>> = RefCell::new(Default::default());
    pub static NOTE: RefCell<String> = RefCell::new(String::new());
}
pub fn fail(label: &str) -> ! { std::panic::panic_any(Failed(label.to_string())) }
pub fn discard() -> ! { std::panic::panic_any(Discard) }
pub fn reached(l: &'static str) { REACHED.with(|r| *r.borrow_mut().entry(l).or_insert(0) += 1) }
/// Human-readable description of the current concrete input (printed on failure).
pub fn note(s: impl FnOnce() -> String) {
    #[cfg(not(kani))]
    NOTE.with(|n| *n.borrow_mut() = s());
    #[cfg(kani)]
    let _ = s;
}

#[cfg(not(kani))]
pub use native::*;
#[cfg(not(kani))]
mod native {
    use super::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub struct NativeSrc { state: u64, pub rec: Vec<u64>, feed: Option<(Vec<u64>, usize)>, small: bool, pub verifier: bool }
    impl NativeSrc {
        pub fn random(seed: u64) -> Self { NativeSrc { state: seed, rec: vec![], feed: None, small: seed % 3 == 0, verifier: false } }
        pub fn replay(v: Vec<u64>) -> Self { NativeSrc { state: 1, rec: vec![], feed: Some((v, 0)), small: false, verifier: false } }
        fn next(&mut self) -> u64 {
            // splitmix64
            self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn fed(&mut self) -> Option<u64> {
            let (v, i) = self.feed.as_mut()?;
            let r = v.get(*i).copied().unwrap_or(0);
            *i += 1;
            Some(r)
        }
    }
    impl Src for NativeSrc {
        fn u64(&mut self) -> u64 {
            let v = match self.fed() { Some(v) => v, None => {
                let k = self.next() % 16;
                let r = self.next();
                match k {
                    0 => 0, 1 => u64::MAX, 2 => 1u64 << (r % 64), 3 => (1u64 << (r % 64)).wrapping_sub(1),
                    4 => 0u64.wrapping_sub(1u64 << (r % 64)), 5 => (0u64.wrapping_sub(1u64 << (r % 64))).wrapping_sub(1),
                    6 | 7 => r % 17, 8 => r % 256, 9 => 0u64.wrapping_sub(r % 256), 10 => r % 65536, 11 => r as u32 as u64,
                    12 => r as i32 as i64 as u64, 13 => (r % 5).wrapping_sub(2), _ => r,
                }
            }};
            self.rec.push(v);
            v
        }
        fn below(&mut self, n: u64) -> u64 {
            let v = match self.fed() { Some(v) => v, None => { let r = self.next(); if self.small && n > 8 && r & 1 == 0 { (r >> 8) % 8 } else { (r >> 1) % n } } };
            if v >= n { discard() }
            self.rec.push(v);
            v
        }
        fn assume(&mut self, c: bool) { if !c { discard() } }
        fn case(&mut self, n: u64, v: u64) -> u64 { if self.verifier { v } else { self.below(n) } }
    }

    #[derive(Clone, Copy)]
    pub struct Entry { pub prop: &'static str, pub name: &'static str, pub run: fn(&mut NativeSrc), pub weight: u32, pub kani: bool, pub bound: &'static str }

    pub enum Out { Ok, Discard, Fail(String) }
    pub fn run_one(e: &Entry, s: &mut NativeSrc) -> Out {
        NOTE.with(|n| n.borrow_mut().clear());
        match catch_unwind(AssertUnwindSafe(|| (e.run)(s))) {
            Ok(()) => Out::Ok,
            Err(p) => {
                if p.is::<Discard>() { return Out::Discard }
                if let Some(f) = p.downcast_ref::<Failed>() { return Out::Fail(f.0.clone()) }
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                Out::Fail(format!("panic: {}", m))
            }
        }
    }

    /// main of a harness crate: `list` | `search PROP SECONDS SEED` | `replay NAME draws,...`
    pub fn main_with(entries: &[Entry]) -> i32 {
        let a: Vec<String> = std::env::args().collect();
        let verbose = std::env::var("KIT_VERBOSE").is_ok();
        if !verbose { std::panic::set_hook(Box::new(|_| {})); }
        match a.get(1).map(|s| s.as_str()) {
            Some("list") => { for e in entries { println!("{}\t{}\t{}\t{}", e.prop, e.name, e.kani, e.bound); } 0 }
            Some("search") => {
                let (prop, secs, seed) = (a[2].clone(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap());
                let shard: usize = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(0);
                let shards: usize = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(1);
                let mut es: Vec<Entry> = entries.iter().filter(|e| e.prop == prop).copied().collect();
                // few obligations: every shard runs all of them from different seeds; many: split them
                let split = es.len() >= 2 * shards;
                let mut seed = seed;
                if split { es = es.into_iter().enumerate().filter(|(i, _)| i % shards == shard).map(|(_, e)| e).collect(); } else { seed = seed.wrapping_mul(1009).wrapping_add(shard as u64); }
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || search(&es, secs, seed)).unwrap();
                // watchdog: one case that runs for half a minute does not terminate
                let mut last = (0u64, std::time::Instant::now());
                while !h.is_finished() {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let now = CASE_NO.load(std::sync::atomic::Ordering::Relaxed);
                    if now != last.0 { last = (now, std::time::Instant::now()) }
                    else if last.1.elapsed().as_secs() >= 30 && CASE_ACTIVE.load(std::sync::atomic::Ordering::Relaxed) {
                        let name = CASE_NAME.lock().unwrap().clone();
                        println!("FAIL\t{}\tdoes not terminate (30 s)\tseed:{}\tcase {}", name, CASE_SEED.load(std::sync::atomic::Ordering::Relaxed), CASE_SEED.load(std::sync::atomic::Ordering::Relaxed));
                        std::process::exit(1);
                    }
                }
                h.join().unwrap_or(1)
            }
            Some("replay-case") => {
                let e = match entries.iter().find(|e| e.name == a[2]) { Some(e) => *e, None => { println!("NOENTRY"); return 3 } };
                let st: u64 = a[3].trim_start_matches("seed:").parse().unwrap();
                let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_one(&e, &mut NativeSrc::random(st))).unwrap().join();
                match r { Ok(Out::Ok) => { println!("HOLDS"); 0 } Ok(Out::Discard) => { println!("DISCARD"); 2 } Ok(Out::Fail(l)) => { println!("FAIL\t{}\t{}\t", e.name, l); 1 } Err(_) => 1 }
            }
            Some(cmd @ ("replay" | "replay-verifier")) => {
                let e = match entries.iter().find(|e| e.name == a[2]) { Some(e) => e, None => { println!("NOENTRY"); return 3 } };
                let v: Vec<u64> = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
                let mut src = NativeSrc::replay(v);
                src.verifier = cmd == "replay-verifier";
                let r = run_one(e, &mut src);
                let note = NOTE.with(|n| n.borrow().clone());
                match r {
                    Out::Ok => { println!("HOLDS\t{}\t{}", e.name, note); 0 }
                    Out::Discard => { println!("DISCARD\t{}", e.name); 2 }
                    Out::Fail(l) => { println!("FAIL\t{}\t{}\t{}", e.name, l, note); 1 }
                }
            }
            _ => { eprintln!("usage: list | search PROP SECS SEED | replay NAME DRAWS"); 2 }
        }
    }

    static CASE_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    static CASE_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    static CASE_ACTIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    static CASE_NAME: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

    fn search(es: &[Entry], secs: f64, seed: u64) -> i32 {
        use std::os::unix::fs::FileExt;
        use std::sync::atomic::Ordering::Relaxed;
        let total: u32 = es.iter().map(|e| e.weight).sum();
        let file = std::fs::File::create("last-case").ok();
        let mut bad = 0;
        for e in es {
            println!("START\t{}", e.name);
            *CASE_NAME.lock().unwrap() = e.name.to_string();
            let budget = secs * e.weight as f64 / total as f64;
            let t0 = std::time::Instant::now();
            let (mut ok, mut disc, mut i) = (0u64, 0u64, 0u64);
            let mut failed = None;
            let mut seen = std::collections::HashSet::new();
            let mut sample = String::new();
            while t0.elapsed().as_secs_f64() < budget || i < 50 {
                if t0.elapsed().as_secs_f64() > budget * 3.0 + 5.0 { break }
                let st = seed.wrapping_mul(0x1000003).wrapping_add(i.wrapping_mul(0xd1342543de82ef95));
                if let Some(f) = &file { let _ = f.write_at(format!("{:020}\n", st).as_bytes(), 0); }
                CASE_SEED.store(st, Relaxed);
                CASE_NO.fetch_add(1, Relaxed);
                CASE_ACTIVE.store(true, Relaxed);
                let mut s = NativeSrc::random(st);
                i += 1;
                match run_one(e, &mut s) {
                    Out::Ok => {
                        ok += 1;
                        if seen.len() < 1_000_000 { let mut h = 0xcbf29ce484222325u64; for d in &s.rec { h = (h ^ d).wrapping_mul(0x100000001b3).rotate_left(17); } seen.insert(h); }
                        if ok == 3 { sample = NOTE.with(|n| n.borrow().clone()); }
                    }
                    Out::Discard => disc += 1,
                    Out::Fail(l) => { failed = Some((l, s.rec)); break }
                }
            }
            match failed {
                None => println!("OK\t{}\t{}\t{}\t{}\t{}", e.name, ok, disc, seen.len(), sample.replace(['\n', '\t'], " ").chars().take(300).collect::<String>()),
                Some((l, rec)) => {
                    let (l0, rec0) = (l.clone(), rec.clone());
                    let (l, rec) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| shrink(e, l, rec))).unwrap_or((l0, rec0));
                    let _ = run_one(e, &mut NativeSrc::replay(rec.clone()));
                    let note = NOTE.with(|n| n.borrow().clone());
                    println!("FAIL\t{}\t{}\t{}\t{}", e.name, l.replace(['\n', '\t'], " "), rec.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","), note.replace(['\n', '\t'], " "));
                    bad += 1;
                }
            }
            CASE_ACTIVE.store(false, Relaxed);
        }
        REACHED.with(|r| for (k, v) in r.borrow().iter() { println!("REACHED\t{}\t{}", k, v) });
        if bad > 0 { 1 } else { 0 }
    }

    fn shrink(e: &Entry, label: String, rec: Vec<u64>) -> (String, Vec<u64>) {
        let t0 = std::time::Instant::now();
        let mut best = rec;
        let mut lab = label;
        let mut progress = true;
        // whole stretches first: cut, then zero
        let mut size = best.len() / 2;
        while size > 0 && t0.elapsed().as_secs() < 6 {
            let mut at = 0;
            while at < best.len() && t0.elapsed().as_secs() < 6 {
                let end = (at + size).min(best.len());
                let mut cut = best.clone();
                cut.drain(at..end);
                let mut zero = best.clone();
                for d in &mut zero[at..end] { *d = 0 }
                let mut cands = vec![cut];
                if zero != best { cands.push(zero) }
                let mut took = false;
                for v in cands {
                    let before = best.clone();
                    let mut s = NativeSrc::replay(v);
                    if let Out::Fail(l) = run_one(e, &mut s) {
                        if s.rec.len() < before.len() || s.rec.len() == before.len() && s.rec < before { best = s.rec; lab = l; took = true; break }
                    }
                }
                if !took { at += size }
            }
            size /= 2;
        }
        let t0 = std::time::Instant::now();
        while progress && t0.elapsed().as_secs() < 5 {
            progress = false;
            for i in 0..best.len() {
                if i >= best.len() { break }
                for c in [0u64, 1, best[i] / 2, best[i].wrapping_sub(1)] {
                    if i >= best.len() || c >= best[i] { continue }
                    if t0.elapsed().as_secs() >= 5 { break }
                    let mut v = best.clone();
                    v[i] = c;
                    let mut s = NativeSrc::replay(v);
                    if let Out::Fail(l) = run_one(e, &mut s) { best = s.rec; lab = l; progress = true; }
                }
            }
        }
        (lab, best)
    }
}

/// Declare an obligation module. `kani` entries are proved by Kani and searched natively,
/// `native` entries are searched natively only (bounded).
#[macro_export]
macro_rules! obligation {
    ($name:ident, kani, unwind = $u:literal, |$s:ident| $body:block) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables, unused_mut)]
            pub fn body<S: $crate::Src>($s: &mut S) $body
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            pub fn proof() { body(&mut $crate::KaniSrc) }
        }
    };
    // hash maps under the verifier: fixed keys instead of random ones (any key is a legal key)
    ($name:ident, kani_map, unwind = $u:literal, |$s:ident| $body:block) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables, unused_mut)]
            pub fn body<S: $crate::Src>($s: &mut S) $body
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            #[kani::stub(std::hash::RandomState::new, $crate::fixed_keys)]
            pub fn proof() { body(&mut $crate::KaniSrc) }
        }
    };
    // further functions replaced by their contracts
    ($name:ident, kani_stub($($from:path => $to:path),*), unwind = $u:literal, |$s:ident| $body:block) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables, unused_mut)]
            pub fn body<S: $crate::Src>($s: &mut S) $body
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            #[kani::stub(std::hash::RandomState::new, $crate::fixed_keys)]
            $(#[kani::stub($from, $to)])*
            pub fn proof() { body(&mut $crate::KaniSrc) }
        }
    };
    ($name:ident, native, |$s:ident| $body:block) => {
        #[cfg(not(kani))]
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables, unused_mut)]
            pub fn body<S: $crate::Src>($s: &mut S) $body
        }
    };
}
#[macro_export]
macro_rules! entry {
    ($prop:literal, $m:ident :: $name:ident, $w:literal, kani) => {
        $crate::Entry { prop: $prop, name: concat!(stringify!($m), "::", stringify!($name)), run: crate::$m::$name::body::<$crate::NativeSrc>, weight: $w, kani: true, bound: "" }
    };
    ($prop:literal, $m:ident :: $name:ident, $w:literal, native, $b:literal) => {
        $crate::Entry { prop: $prop, name: concat!(stringify!($m), "::", stringify!($name)), run: crate::$m::$name::body::<$crate::NativeSrc>, weight: $w, kani: false, bound: $b }
    };
}
