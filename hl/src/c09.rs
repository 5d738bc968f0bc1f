//! C09: generated machine code does what the lowered program means.
//!
//! Random well-typed lowered programs are compiled by the real code generator, linked by the real
//! JIT and run; what they store is compared with the meaning of the language (irgen::Interp).
#![cfg(not(kani))]
use crate::c06::whole::{model, M};
use crate::irgen::*;
use kit::*;
use llrl::backend::chibi::verif::*;
use llrl::backend::native::mem_layout::Class;
use llrl::lowering::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}
pub const OUT: usize = 1 << 16;
/// A page range shared with the children.
pub fn shared() -> *mut u8 {
    use std::sync::OnceLock;
    static P: OnceLock<usize> = OnceLock::new();
    *P.get_or_init(|| unsafe { mmap(std::ptr::null_mut(), OUT * 2, 3, 0x21, -1, 0) as usize }) as *mut u8
}
/// Runs `f` in a child; Err says how it died.
pub fn in_child(f: impl FnOnce() -> i32) -> Result<i32, String> {
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(20);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            _exit(match r { Ok(c) => c, Err(p) => {
                let m = if let Some(w) = p.downcast_ref::<Wrong>() { w.0.clone() } else { format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
                let b = m.as_bytes();
                let n = b.len().min(OUT - 8);
                let q = shared().add(OUT);
                (q as *mut u64).write(n as u64);
                std::ptr::copy_nonoverlapping(b.as_ptr(), q.add(8), n);
                99
            } })
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f != 0 { return Err(if st & 0x7f == 14 { "the program does not terminate".into() } else { format!("the program dies of signal {}", st & 0x7f) }) }
        let c = (st >> 8) & 0xff;
        if c == 99 {
            let q = shared().add(OUT);
            let n = (q as *const u64).read() as usize;
            return Err(String::from_utf8_lossy(std::slice::from_raw_parts(q.add(8), n)).into_owned())
        }
        Ok(c)
    }
}

// ------------------------------------------------------------------ host functions
#[repr(C)] #[derive(Clone, Copy)] pub struct SA(u8, f32);
#[repr(C)] #[derive(Clone, Copy)] pub struct SB(f32, f32, f32);
#[repr(C)] #[derive(Clone, Copy)] pub struct SC(u64, f64);
#[repr(C)] #[derive(Clone, Copy)] pub struct SD(u64, u64, u8);
#[repr(C)] #[derive(Clone, Copy)] pub struct SE(f64, u16);
#[repr(C)] #[derive(Clone, Copy)] pub struct SF(u16, u8, u32);
// every function mixes what it got, so that any misplaced argument shows
fn mx(a: u64, b: u64) -> u64 { (a.rotate_left(13) ^ b).wrapping_mul(0x9e3779b97f4a7c15) }
macro_rules! hosts { ($($name:ident($($a:ident: $t:ty),*) -> $r:ty $body:block)*) => { $( pub extern "C" fn $name($($a: $t),*) -> $r { let _ = 0; $body } )* } }
// NaNs have many representations, which the language does not distinguish
fn c32(f: f32) -> u64 { if f.is_nan() { 1 } else { f.to_bits() as u64 } }
fn c64(f: f64) -> u64 { if f.is_nan() { 1 } else { f.to_bits() } }
// The psABI leaves the upper bits of a small integer argument unspecified: these functions take the
// whole register and look at the low part only.
type W = u64;
hosts! {
    h_ints(a: W, b: W, c: u32, d: i64, e: u64, f: W, g: W, h: u64) -> u64 { let (a, b, f, g) = (a as u8, b as i16, f as u8, g as i16); [a as u64, b as u64, c as u64, d as u64, e, f as u64, g as u64, h].iter().fold(1, |x, y| mx(x, *y)) }
    h_flts(a: f32, b: f64, c: f32, d: f64, e: f32, f: f64, g: f32, h: f64, i: f32, j: f64) -> u64 { [c32(a), c64(b), c32(c), c64(d), c32(e), c64(f), c32(g), c64(h), c32(i), c64(j)].iter().fold(2, |x, y| mx(x, *y)) }
    h_mixed(a: SA, b: SC, c: W, d: SB, e: f32, f: SE) -> u64 { let c = c as u8; [a.0 as u64, c32(a.1), b.0, c64(b.1), c as u64, c32(d.0), c32(d.1), c32(d.2), c32(e), c64(f.0), f.1 as u64].iter().fold(3, |x, y| mx(x, *y)) }
    h_mem(a: u64, b: SD, c: SD, d: W, e: f64) -> u64 { let d = d as u16; [a, b.0, b.1, b.2 as u64, c.0, c.1, c.2 as u64, d as u64, c64(e)].iter().fold(4, |x, y| mx(x, *y)) }
    h_over(a: SC, b: SF, c: u64, d: SC, e: SD, f: u64, g: SC, h: W, i: SF) -> u64 { let h = h as u8; [a.0, c64(a.1), b.0 as u64, b.1 as u64, b.2 as u64, c, d.0, c64(d.1), e.0, e.1, e.2 as u64, f, g.0, c64(g.1), h as u64, i.0 as u64, i.1 as u64, i.2 as u64].iter().fold(5, |x, y| mx(x, *y)) }
    h_rd(a: u64, b: W) -> SD { let b = b as u8; SD(a, mx(a, b as u64), b) }
    h_rc(a: f64, b: u64) -> SC { SC(b, a) }
    h_rb(a: f32, b: f32) -> SB { SB(b, a, b) }
    h_ra(a: SA) -> SA { SA(a.0 ^ 0x55, a.1) }
    h_re(a: SE, b: SF) -> SE { SE(a.0, a.1 ^ b.0) }
    h_rf(a: SF) -> SF { SF(a.0, a.1, a.2 ^ 7) }
    h_f32(a: u64, b: f32) -> f32 { if a & 1 == 0 { b } else { -b } }
    h_unit(a: u64) -> () { let _ = a; }
}
fn i(v: &V) -> u64 { match v { V::I(v) => *v, V::F32(f) => c32(*f), V::F64(f) => c64(*f), _ => panic!("host value") } }
fn flat(vs: &[V], out: &mut Vec<u64>) { for v in vs { match v { V::St(f) => flat(f, out), v => out.push(i(v)) } } }
fn f32_(v: &V) -> f32 { match v { V::F32(f) => *f, _ => panic!() } }
fn f64_(v: &V) -> f64 { match v { V::F64(f) => *f, _ => panic!() } }
fn st(v: &V) -> &[V] { match v { V::St(f) => f, _ => panic!() } }
fn sign(v: u64, w: usize) -> u64 { sx(v, w) as u64 }
pub fn add_hosts(w: &mut World) {
    let (u8_, u16_, u32_, i16_, i64_) = (T::I(false, 8), T::I(false, 16), T::I(false, 32), T::I(true, 16), T::I(true, 64));
    let a = T::St(w.add_struct(vec![u8_.clone(), T::F32]));
    let b = T::St(w.add_struct(vec![T::F32, T::F32, T::F32]));
    let c = T::St(w.add_struct(vec![U64, T::F64]));
    let d = T::St(w.add_struct(vec![U64, U64, u8_.clone()]));
    let e = T::St(w.add_struct(vec![T::F64, u16_.clone()]));
    let f = T::St(w.add_struct(vec![u16_.clone(), u8_.clone(), u32_.clone()]));
    fn sum(k: u64, vs: &[V]) -> V { let mut o = vec![]; flat(vs, &mut o); V::I(o.iter().fold(k, |x, y| mx(x, *y))) }
    let h = |addr: usize, params: Vec<T>, ret: T, f: fn(&[V]) -> V| Host { addr: addr as u64, params, ret, f };
    w.host = vec![
        h(h_ints as usize, vec![u8_.clone(), i16_.clone(), u32_.clone(), i64_.clone(), U64, u8_.clone(), i16_.clone(), U64], U64, |v| { let mut v = v.to_vec(); for k in [1, 6] { v[k] = V::I(sign(i(&v[k]), 16)) } sum(1, &v) }),
        h(h_flts as usize, vec![T::F32, T::F64, T::F32, T::F64, T::F32, T::F64, T::F32, T::F64, T::F32, T::F64], U64, |v| sum(2, v)),
        h(h_mixed as usize, vec![a.clone(), c.clone(), u8_.clone(), b.clone(), T::F32, e.clone()], U64, |v| sum(3, v)),
        h(h_mem as usize, vec![U64, d.clone(), d.clone(), u16_.clone(), T::F64], U64, |v| sum(4, v)),
        h(h_over as usize, vec![c.clone(), f.clone(), U64, c.clone(), d.clone(), U64, c.clone(), u8_.clone(), f.clone()], U64, |v| sum(5, v)),
        h(h_rd as usize, vec![U64, u8_.clone()], d.clone(), |v| V::St(vec![v[0].clone(), V::I(mx(i(&v[0]), i(&v[1]))), v[1].clone()])),
        h(h_rc as usize, vec![T::F64, U64], c.clone(), |v| V::St(vec![v[1].clone(), v[0].clone()])),
        h(h_rb as usize, vec![T::F32, T::F32], b.clone(), |v| V::St(vec![v[1].clone(), v[0].clone(), v[1].clone()])),
        h(h_ra as usize, vec![a.clone()], a.clone(), |v| { let s = st(&v[0]); V::St(vec![V::I(i(&s[0]) ^ 0x55), s[1].clone()]) }),
        h(h_re as usize, vec![e.clone(), f.clone()], e.clone(), |v| { let (s, t) = (st(&v[0]), st(&v[1])); V::St(vec![s[0].clone(), V::I(i(&s[1]) ^ i(&t[0]))]) }),
        h(h_rf as usize, vec![f.clone()], f.clone(), |v| { let s = st(&v[0]); V::St(vec![s[0].clone(), s[1].clone(), V::I(i(&s[2]) ^ 7)]) }),
        h(h_f32 as usize, vec![U64, T::F32], T::F32, |v| V::F32(if i(&v[0]) & 1 == 0 { f32_(&v[1]) } else { -f32_(&v[1]) })),
        h(h_unit as usize, vec![U64], T::Unit, |_| V::Unit),
    ];
}

// ------------------------------------------------------------------ observation
/// Compares stored bytes with a value of the reference meaning.
pub unsafe fn compare(w: &World, p: *const u8, t: &T, v: &V) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}: expected {:?}", what, v));
    match (t, v) {
        (_, V::Undef) => Ok(()),
        (T::I(_, n), V::I(x)) => {
            let k = n.div_ceil(8).next_power_of_two();
            let mut b = [0u8; 8];
            std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), k);
            let g = u64::from_le_bytes(b);
            if mask(g, *n) != *x { return bad(&format!("{:#x}", g)) }
            if *n == 1 && g > 1 { return bad(&format!("{:#x} for a boolean", g)) }
            Ok(())
        }
        (T::Char, V::Ch(c)) => { let g = (p as *const u32).read_unaligned(); if g != *c as u32 { bad(&format!("{:#x}", g)) } else { Ok(()) } }
        (T::F32, V::F32(f)) => { let g = (p as *const f32).read_unaligned(); if g.to_bits() == f.to_bits() || g.is_nan() && f.is_nan() { Ok(()) } else { bad(&format!("{:?}", g)) } }
        (T::F64, V::F64(f)) => { let g = (p as *const f64).read_unaligned(); if g.to_bits() == f.to_bits() || g.is_nan() && f.is_nan() { Ok(()) } else { bad(&format!("{:?}", g)) } }
        (T::Unit, _) => Ok(()),
        (T::Str, V::Str(s)) => {
            let (q, n) = ((p as *const *const u8).read_unaligned(), (p as *const u64).add(1).read_unaligned());
            if n != s.len() as u64 { return bad(&format!("a string of {} bytes", n)) }
            if n > 0 && std::slice::from_raw_parts(q, n as usize) != &s[..] { return bad("a string") }
            Ok(())
        }
        (T::St(k), V::St(vs)) => {
            let mut off = 0usize;
            for (f, x) in w.structs[*k].1.iter().zip(vs) {
                let (size, al, ..) = model(&w.model(f));
                if al > 0 { off = off.next_multiple_of(al) }
                compare(w, p.add(off), f, x)?;
                off += size;
            }
            Ok(())
        }
        (T::Un(k), V::Re(x, from)) => { match w.unions[*k].1.iter().find(|f| w.to_ct(f) == *from) { Some(f) => compare(w, p, f, x), None => Ok(()) } }
        (T::P(_) | T::Arr(_) | T::Cl(..) | T::Un(_), _) => Ok(()),
        _ => Err(format!("value {:?} of type {:?}", v, t)),
    }
}
const FILL: u8 = 0xa5;
/// Builds, runs and compares: `main` stores each observed expression.
fn check_program(w: &World, obs: Vec<(T, Rt)>) {
    let base = shared();
    let size_of = |ct: &Ct| -> (usize, usize) {
        fn find(w: &World, ct: &Ct) -> M {
            match ct {
                Ct::U(n) | Ct::S(n) => { let k = n.div_ceil(8).next_power_of_two(); M::Leaf(k, k, Class::Integer) }
                Ct::F32 => M::Leaf(4, 4, Class::FloatingPoint), Ct::F64 => M::Leaf(8, 8, Class::FloatingPoint), Ct::Char => M::Leaf(4, 4, Class::Integer), Ct::Unit => M::Leaf(0, 0, Class::Void),
                Ct::Ptr(_) => M::Leaf(8, 8, Class::Integer),
                Ct::Id(id) => {
                    if let Some(i) = w.structs.iter().position(|s| s.0 == *id) { return w.model(&T::St(i)) }
                    w.model(&T::Un(w.unions.iter().position(|s| s.0 == *id).unwrap()))
                }
                _ => M::Leaf(16, 8, Class::Integer),
            }
        }
        let (s, a, ..) = model(&find(w, ct));
        (s, a)
    };
    let mut it = Interp::new(&w.defs, &w.host, &size_of);
    let mut stmts = vec![];
    let mut want = vec![];
    let mut at = 0usize;
    for (t, e) in obs {
        let v = match it.run(&e) { Ok(v) => v, Err(m) if m == "fuel" || m == "array" => discard(), Err(m) => { if std::env::var("KIT_VERBOSE").is_ok() { eprintln!("the reference rejects: {}", m) } discard() } };
        let (size, ..) = model(&w.model(&t));
        if at + size + 64 > OUT { discard() }
        let ct = w.to_ct(&t);
        stmts.push(Rt::binary(Binary::Store, e, Rt::unary(Unary::IToPtr(ct), int(&U64, base as u64 + at as u64))));
        want.push((at, size, t, v));
        at = (at + size + 16).next_multiple_of(16);
    }
    let main = Function::new(None, vec![], Ct::BOOL, Rt::seq(stmts, int(&BOOL, 1)), FunctionKind::Main, false);
    note(|| { let mut ds: Vec<_> = w.defs.iter().collect(); ds.sort_by_key(|d| *d.0); format!("{} {}", ds.iter().map(|(k, d)| format!("{} = {};", k, d)).collect::<String>(), main) });
    unsafe { std::ptr::write_bytes(base, FILL, at + 64) };
    let r = in_child(|| {
        let mut ctx = Context::new();
        ctx.add_types(&w.defs);
        let obj = object(&w.defs, Some(&main), &mut ctx).unwrap();
        let mut ex = Executor::new();
        ex.add_object(&obj);
        let f = ctx.main_function_symbol().unwrap();
        if !ex.call_main(f) { return 3 }
        // strings and cells live in this process: compare here
        let mut end = 0;
        for (at, size, t, v) in &want {
            unsafe {
                for k in end..*at { if *base.add(k) != FILL { wrong(format!("a byte beside a stored value changes (observation at {})", at)) } }
                if let Err(m) = compare(w, base.add(*at), t, v) { wrong(format!("the generated code computes something else: {}", m)) }
            }
            end = at + size;
        }
        unsafe { for k in end..end + 48 { if *base.add(k) != FILL { wrong("a byte after the stored values changes".into()) } } }
        0
    });
    match r {
        Err(m) => kit::fail(&m),
        Ok(0) => {}
        Ok(c) => kit::fail(&format!("the result of the program is lost (status {})", c)),
    }
}
struct Wrong(String);
fn wrong(m: String) -> ! { std::panic::panic_any(Wrong(m)) }
kit::obligation!(operators, native, |s| {
    // one operator at a time, on leaves
    let mut w = World::new(Mode::Lowered);
    let n = 4 + s.below(8);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| { let t = w.scalar(s); let e = w.gen_d(s, &t, 6, 2); (t, e) }).collect();
    check_program(&w, obs);
});
kit::obligation!(programs, native, |s| {
    let mut w = World::new(Mode::Lowered);
    add_hosts(&mut w);
    w.types(s);
    for _ in 0..s.below(4) { w.function(s, 30); }
    let n = 1 + s.below(3);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| { let t = w.plain(s); let e = w.gen(s, &t, 60); (t, e) }).collect();
    check_program(&w, obs);
});
kit::obligation!(calls, native, |s| {
    // foreign calls with aggregates
    let mut w = World::new(Mode::Lowered);
    add_hosts(&mut w);
    let n = 1 + s.below(4);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| { let h = s.below(w.host.len() as u64) as usize; let t = w.host[h].ret.clone(); let e = w.host_call(s, h); (t, e) }).collect();
    check_program(&w, obs);
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C09", c09::operators, 2, native, "expressions of at most 6 nodes"), kit::entry!("C09", c09::programs, 4, native, "programs of at most 4 functions, 30 to 60 nodes each"),
        kit::entry!("C09", c09::calls, 1, native, "13 foreign signatures"),
    ]
}
