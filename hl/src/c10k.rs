//! C10, proved part: which tests of a match may be left out.
use kit::*;
use llrl::lowering::ir::*;
use llrl::lowering::verif::distinct;

/// The value an integer pattern matches at a width.
fn at(neg: bool, v: u64, w: usize) -> u64 {
    let _ = neg; // the magnitude is stored in two's complement
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}
// A test is left out only where no value passes both tests.
macro_rules! integers { ($name:ident, $ty:ident) => {
    kit::obligation!($name, kani, unwind = 3, |s| {
        let w = [8usize, 16, 32, 64][s.below(4) as usize];
        let (a, na, b, nb, x) = (s.u64(), s.bool(), s.u64(), s.bool(), s.u64());
        note(|| format!("{}{} patterns {}{:#x} and {}{:#x}", stringify!($ty), w, na, a, nb, b));
        let ex = { let p = std::mem::ManuallyDrop::new((Const::Integer(Ct::$ty(w), na, a), Const::Integer(Ct::$ty(w), nb, b))); distinct(&p.0, &p.1) };
        let x = at(false, x, w);
        chk!(!(ex && x == at(na, a, w) && x == at(nb, b, w)), "a value that passes both tests is tested for both");
        reach!("integers");
    });
} }
integers!(signed_integers, S);
integers!(unsigned_integers, U);
// Different characters exclude each other at most when they differ.
kit::obligation!(chars, kani, unwind = 3, |s| {
    let (a, b) = (s.char(), s.char());
    note(|| format!("characters {:?} {:?}", a, b));
    chk!(!({ let p = std::mem::ManuallyDrop::new((Const::Char(a), Const::Char(b))); distinct(&p.0, &p.1) } && a == b), "the same character is tested once or again, never taken as failed");
    reach!("chars");
});
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    let mut es = crate::c10::entries();
    es.extend([
        kit::entry!("C10", c10k::signed_integers, 1, kani),
        kit::entry!("C10", c10k::unsigned_integers, 1, kani),
        kit::entry!("C10", c10k::chars, 1, kani),
    ]);
    es
}
