//! C07: the calling convention of generated code.
use crate::c06::{align_of, class_of, rank};
use kit::*;
use llrl::backend::chibi::verif::*;
use llrl::backend::native::mem_layout::*;
use std::sync::Arc;
use xten::asm::*;

static GPS: [Gpr64; 6] = [Rdi, Rsi, Rdx, Rcx, R8, R9];
static FPS: [Xmm; 8] = [Xmm0, Xmm1, Xmm2, Xmm3, Xmm4, Xmm5, Xmm6, Xmm7];

fn lay<S: Src>(s: &mut S) -> Layout {
    // every layout a data type can have: empty, up to 16 bytes, or in memory
    let (size, class) = (s.below(17) as usize, class_of(s));
    let big = s.below(1 << 32) as usize;
    let size = if class == Class::Memory { big } else { size };
    s.assume((size == 0) == (class == Class::Void));
    Layout { size, align: 8, class, composite: None }
}
fn reg_is_g(r: AssignedReg, g: Gpr64) -> bool { match r { AssignedReg::Gpr(x) => x as u8 == g as u8, _ => false } }
fn reg_is_x(r: AssignedReg, g: Xmm) -> bool { match r { AssignedReg::Xmm(x) => x as u8 == g as u8, _ => false } }

// A value without visible components: all its eightbytes have its class, registers are taken in
// order, and only when all of them are there.
kit::obligation!(build, kani, unwind = 5, |s| {
    let l = lay(s);
    let (g0, f0) = (s.below(7) as usize, s.below(9) as usize);
    note(|| format!("{:?} with {} general and {} floating point registers taken", l, g0, f0));
    let (mut gps, mut fps) = (&GPS[g0..], &FPS[f0..]);
    let r = RegAssign::build(&l, &mut gps, &mut fps);
    let n = (l.size + 7) / 8;
    let (gi, fi) = (GPS.len() - gps.len(), FPS.len() - fps.len());
    match &r {
        Ok(v) => {
            chk!(l.class == Class::Integer || l.class == Class::FloatingPoint, "only values of a register class are passed in registers");
            chk!(v.len() == n, "one register per eightbyte");
            let int = l.class == Class::Integer;
            chk!(gi == if int { g0 + n } else { g0 } && fi == if int { f0 } else { f0 + n }, "the registers used are no longer available, the others are");
            let mut i = 0;
            while i < 2 {
                if i < v.len() {
                    chk!(v[i].offset == 8 * i && v[i].size == if l.size - 8 * i < 8 { l.size - 8 * i } else { 8 }, "a register holds its eightbyte");
                    chk!(if int { reg_is_g(v[i].reg, GPS[g0 + i]) } else { reg_is_x(v[i].reg, FPS[f0 + i]) }, "the next register of the class is used");
                }
                i += 1;
            }
            reach!("assigned");
        }
        Err(()) => {
            chk!(gi == g0 && fi == f0, "a value that is not passed in registers takes none");
            chk!(match l.class { Class::Void | Class::Memory => true, Class::Integer => GPS.len() - g0 < n, Class::FloatingPoint => FPS.len() - f0 < n }, "a value is passed in memory only when registers do not suffice");
            reach!("memory");
        }
    }
    std::mem::forget((r, l));
});
// A value of two components, at any offsets: each eightbyte by the class of what it contains.
kit::obligation!(eightbytes, kani_stub(llrl::backend::native::mem_layout::Layout::composite => attach), unwind = 5, |s| {
    let c = |s: &mut S| match s.below(3) { 0 => Class::Integer, 1 => Class::FloatingPoint, _ => Class::Void };
    let (ca, cb) = (c(s), c(s));
    let (sa, sb) = (s.below(9) as usize, s.below(9) as usize);
    s.assume((sa == 0) == (ca == Class::Void) && (sb == 0) == (cb == Class::Void));
    let al = |n: usize| if n == 0 { 0 } else { 1usize };
    // a sub-value of up to 8 bytes at any offset: alignment as drawn
    let (aa, ab) = (align_of(s), align_of(s));
    s.assume(aa <= 8 && ab <= 8);
    let fs = [Layout { size: sa, align: aa, class: ca, composite: None }, Layout { size: sb, align: ab, class: cb, composite: None }];
    note(|| format!("{:?}", fs));
    let l = std::mem::ManuallyDrop::new(Layout::product(&fs[..]));
    let o = if ab == 0 { sa } else { (sa + ab - 1) & !(ab - 1) };
    let mut i = 0;
    let mut it = l.eightbytes();
    while i < 3 {
        match it.next() {
            None => { chk!(i == (l.size + 7) / 8, "eightbytes cover the value"); break }
            Some(e) => {
                chk!(e.offset == 8 * i && e.size == if l.size - 8 * i < 8 { l.size - 8 * i } else { 8 }, "an eightbyte covers eight bytes or the rest");
                let ta = 0 < 8 * i + 8 && sa > 8 * i;
                let tb = o < 8 * i + 8 && o + sb > 8 * i;
                let mut k = Class::Void;
                if ta { k = ca }
                if tb && rank(cb) > rank(k) { k = cb }
                chk!(e.class == k, "an eightbyte has the strongest class of what it contains");
                reach!("eightbyte");
            }
        }
        i += 1;
    }
    let _ = al;
    std::mem::forget(fs);
});
#[cfg(kani)]
fn attach(mut l: Layout, c: CompositeLayout) -> Layout {
    std::mem::forget(std::mem::replace(&mut l.composite, Some(Arc::new(c))));
    l
}
// The frame around a call: aligned, and every part where the callee and the caller look for it.
fn arg<S: Src>(s: &mut S) -> (CallArg, usize) {
    let n = s.below(1 << 28) as usize;
    match s.below(3) {
        0 => (CallArg::Stack(n), n),
        1 => (CallArg::StackRev(n), n),
        _ => (CallArg::Reg(RegAssign::new(0, 8, Rdi), None), 0),
    }
}
fn frame_depth<S: Src>(s: &mut S) -> StackFrame {
    let d = s.below(1 << 30) as usize;
    // SAFETY of the map: never touched by CallFrame
    StackFrame { ret_ptr: None, var_offsets: Default::default(), vars: 0, allocs: 0, depth: d }
}
kit::obligation!(frame, kani_map, unwind = 4, |s| {
    let sf = std::mem::ManuallyDrop::new(frame_depth(s));
    let ((a, na), (b, nb)) = (arg(s), arg(s));
    let nr = s.below(1 << 28) as usize;
    let (ret, nr) = if s.bool() { (CallRet::Stack(nr), nr) } else { (CallRet::Reg(RegAssign::new(0, 8, Rax), None), 0) };
    note(|| format!("depth {}, args {:?} {:?}, ret {:?}", sf.depth, a, b, ret));
    let cf = CallFrame::new([a, b], ret, &sf);
    let before = cf.padding_before_stack_args();
    let after = cf.remnants_after_call();
    let (bn, an) = (before.num_eightbytes(), after.num_eightbytes());
    chk!(bn >= nr && (sf.depth + bn + na + nb) % 2 == 0, "the stack is 16-byte aligned at every call");
    chk!(bn - nr < 2, "at most one eightbyte of padding");
    chk!(an + nr == bn + na + nb, "after the call exactly the returned value remains");
    match cf.offset_to_ret_destination() {
        Some(o) => { chk!(nr != 0 && o == an * 8, "the result is written where it remains after the call"); reach!("ret"); }
        None => { chk!(nr == 0, "a result in memory has a destination"); reach!("no ret"); }
    }
    chk!(before.size == bn * 8 && after.size == an * 8, "whole eightbytes");
});
// Argument lists, against the System V rules computed independently.
#[cfg(not(kani))]
fn value<S: Src>(s: &mut S) -> (Layout, Vec<Class>) {
    use crate::c06::whole::*;
    let m = match s.below(3) {
        0 => scalar(s).1,
        _ => { let k = s.below(4); let fs = (0..k).map(|_| scalar(s).1).collect(); if s.below(4) == 0 { M::Sum(fs) } else { M::Prod(fs) } }
    };
    fn to_layout(m: &M) -> Layout {
        match m {
            M::Leaf(s, a, c) => Layout::new(*s, *a, *c),
            M::Prod(fs) => Layout::product(&fs.iter().map(to_layout).collect::<Vec<_>>()),
            M::Sum(fs) => Layout::sum(&fs.iter().map(to_layout).collect::<Vec<_>>()),
        }
    }
    let (size, _, class, leaves) = model(&m);
    let whole = matches!(m, M::Sum(_) | M::Leaf(..));
    let cs = (0..size.div_ceil(8)).map(|i| if whole { class } else {
        leaves.iter().filter(|(o, z, _)| *o < 8 * i + 8 && o + z > 8 * i).fold(Class::Void, |k, (_, _, c)| if rank(*c) > rank(k) { *c } else { k })
    }).collect();
    let _ = class;
    (to_layout(&m), if size == 0 || class == Class::Memory { vec![] } else { cs })
}
kit::obligation!(c_args, native, |s| {
    let n = s.below(12);
    let vs: Vec<(Layout, Vec<Class>)> = (0..n).map(|_| value(s)).collect();
    let (ret, rc) = value(s);
    note(|| format!("arguments {:?}, result {:?}", vs.iter().map(|v| (v.0.size, &v.1)).collect::<Vec<_>>(), (ret.size, &rc)));
    let got = CallArg::c_args(vs.iter().map(|v| v.0.clone()), &ret);
    chk!(got.len() == vs.len(), "one place per argument");
    let (mut g, mut f) = (if ret.size > 0 && rc.is_empty() { 1 } else { 0 }, 0);
    for ((l, cs), a) in vs.iter().zip(&got) {
        let ng = cs.iter().filter(|c| **c == Class::Integer).count();
        let nf = cs.iter().filter(|c| **c == Class::FloatingPoint).count();
        if !cs.is_empty() && g + ng <= 6 && f + nf <= 8 {
            let CallArg::Reg(x, y) = a else { kit::fail("an argument that fits into the registers is passed in registers") };
            let rs: Vec<RegAssign> = std::iter::once(*x).chain(*y).collect();
            chk!(rs.len() == cs.len(), "one register per eightbyte of an argument");
            for (i, (r, c)) in rs.iter().zip(cs).enumerate() {
                chk!(r.offset == 8 * i && r.size == (l.size - 8 * i).min(8), "a register holds its eightbyte of the argument");
                match c {
                    Class::Integer => { chk!(reg_is_g(r.reg, GPS[g]), "integer eightbytes take RDI, RSI, RDX, RCX, R8, R9 in order"); g += 1 }
                    Class::FloatingPoint => { chk!(reg_is_x(r.reg, FPS[f]), "floating point eightbytes take XMM0 to XMM7 in order"); f += 1 }
                    _ => chk!(matches!(r.reg, AssignedReg::Void), "padding takes no register"),
                }
            }
        } else {
            chk!(matches!(a, CallArg::StackRev(k) if *k == l.size.div_ceil(8)), "an argument that does not fit into the registers is passed on the stack, whole");
        }
    }
    // results: RAX, RDX / XMM0, XMM1, or memory
    for r in [CallRet::c(&ret), CallRet::default(&ret)] {
        if rc.is_empty() {
            chk!(matches!(r, CallRet::Stack(k) if k == ret.size.div_ceil(8)), "a result without a register class is returned in memory");
        } else {
            let CallRet::Reg(x, y) = r else { kit::fail("a result of a register class is returned in registers") };
            let (mut g, mut f) = (0, 0);
            let rs: Vec<RegAssign> = std::iter::once(x).chain(y).collect();
            chk!(rs.len() == rc.len(), "one register per eightbyte of a result");
            for (i, (r, c)) in rs.iter().zip(&rc).enumerate() {
                chk!(r.offset == 8 * i && r.size == (ret.size - 8 * i).min(8), "a register holds its eightbyte of the result");
                match c {
                    Class::Integer => { chk!(reg_is_g(r.reg, [Rax, Rdx][g]), "integer results are in RAX, RDX"); g += 1 }
                    Class::FloatingPoint => { chk!(reg_is_x(r.reg, [Xmm0, Xmm1][f]), "floating point results are in XMM0, XMM1"); f += 1 }
                    _ => chk!(matches!(r.reg, AssignedReg::Void), "padding takes no register"),
                }
            }
        }
    }
    // the language's own convention: everything on the stack
    let d = CallArg::default_args(vs.iter().map(|v| v.0.clone()));
    chk!(d.len() == vs.len() && d.iter().zip(&vs).all(|(a, v)| matches!(a, CallArg::Stack(k) if *k == v.0.size.div_ceil(8))), "the language's own calls pass every argument on the stack, whole");
    reach!("call");
});
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C07", c07::build, 1, kani), kit::entry!("C07", c07::eightbytes, 1, kani), kit::entry!("C07", c07::frame, 1, kani),
        kit::entry!("C07", c07::c_args, 4, native, "at most 11 arguments of at most 3 scalars"),
    ]
}
