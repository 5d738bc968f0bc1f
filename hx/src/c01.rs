//! C01: every operand the public API can form is encoded as exactly that operand.
use crate::dec::*;
use crate::regs::*;
use kit::*;
use xten::asm::*;

const LEAQ: Row = Row { pre: pre(&[]), w: true, op: op(&[0x8d]), opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 };
const MOVB: Row = Row { pre: pre(&[]), w: false, op: op(&[0x88]), opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 };

/// leaq reg, [addr] decodes to that register and that address.
fn lea<S: Src>(s: &mut S, m: Memory, e: Ea) {
    let r = s.below(16);
    let ops = [Opv::G(r as u8), Opv::M(e), Opv::F];
    note(|| format!("leaq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leaq(gpr64_of(r), m);
    chk!(decodes(&k, &LEAQ, &ops), "memory operand: leaq reads back as the same register and address");
    reach!("leaq");
}
/// movb [addr], reg8: the REX interplay with byte registers.
fn mvb<S: Src>(s: &mut S, m: Memory, e: Ea) {
    let r = s.below(20);
    let ops = [Opv::M(e), Opv::B(r as u8), Opv::F];
    s.assume(encodable(false, &ops));
    note(|| format!("movb {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(m, gpr8_of(r));
    chk!(decodes(&k, &MOVB, &ops), "memory operand: movb reads back as the same byte register and address");
    reach!("movb");
}

macro_rules! kinds { ($($n:ident $k:literal $b:ident;)*) => { $(
    kit::obligation!($n, kani, unwind = 6, |s| { let (m, e) = mem_of_kind(s, $k); $b(s, m, e) });
)* } }
kinds! {
    lea0 0 lea; lea1 1 lea; lea2 2 lea; lea3 3 lea; lea4 4 lea; lea5 5 lea; lea6 6 lea; lea7 7 lea; lea8 8 lea;
    mvb0 0 mvb; mvb1 1 mvb; mvb2 2 mvb; mvb3 3 mvb; mvb4 4 mvb; mvb5 5 mvb; mvb6 6 mvb; mvb7 7 mvb; mvb8 8 mvb;
}

// The other spellings of an address denote the same operand as the primary spelling.
kit::obligation!(spellings, kani, unwind = 6, |s| {
    let b = gpr64_of(s.below(16));
    let i = s.below(16);
    s.assume(i != 4);
    let i = gpr64_of(i);
    let k = 1u8 << s.below(4);
    let d = s.i32();
    let e = s.i32();
    let d8 = d as i8;
    let e8 = e as i8;
    note(|| format!("base {:?} index {:?} scale {} disp {} {}", b, i, k, d, e));
    chk!(memory(b + i) == memory(b + i * 1u8), "base + index is base + index*1");
    chk!(memory(b + d + i) == memory(b + d + i * 1u8), "base + disp32 + index is scale 1");
    chk!(memory(b + d8 + i) == memory(b + d8 + i * 1u8), "base + disp8 + index is scale 1");
    chk!(memory(d + i) == memory(d + i * 1u8), "disp32 + index is scale 1");
    chk!(memory(b + i * k + d) == memory(b + d + i * k), "base + index*k + disp32 commutes");
    chk!(memory(b + i * k + d8) == memory(b + d8 + i * k), "base + index*k + disp8 commutes");
    chk!(memory(Rip) == memory(Rip + 0i32), "[rip] is [rip + 0]");
    if let Some(x) = d.checked_add(e) {
        chk!(memory(b + d + e) == memory(b + x), "displacements add up");
        chk!(memory(Rip + d + e) == memory(Rip + x), "rip displacements add up");
    }
    if let Some(x) = d.checked_sub(e) { chk!(memory(b + d - e) == memory(b + x), "displacements subtract"); }
    if let Some(x) = d8.checked_add(e8) { chk!(memory(b + d8 + e8) == memory(b + x), "8-bit displacements add up"); }
    if let Some(x) = d8.checked_sub(e8) { chk!(memory(b + d8 - e8) == memory(b + x), "8-bit displacements subtract"); }
    if let Some(x) = d.checked_neg() {
        chk!(memory(b - d) == memory(b + x), "base - disp32");
        chk!(memory(Rip - d) == memory(Rip + x), "rip - disp32");
    }
    if let Some(x) = d8.checked_neg() { chk!(memory(b - d8) == memory(b + x), "base - disp8"); }
    reach!("spellings");
});

// The narrower names of a register denote the same register.
kit::obligation!(narrow, kani, unwind = 6, |s| {
    let c = s.below(16);
    let r = gpr64_of(c);
    note(|| format!("{:?}", r));
    chk!(r.q() == r, "q() is the register itself");
    chk!(r.l() == gpr32_of(c), "l() is the 32-bit name of the register");
    chk!(r.w() == gpr16_of(c), "w() is the 16-bit name of the register");
    chk!(r.b() == gpr8_of(c), "b() is the low byte of the register");
    reach!("narrow");
});

#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    macro_rules! es { ($($n:ident)*) => { vec![$(kit::entry!("C01", c01::$n, 1, kani)),*] } }
    es!(lea0 lea1 lea2 lea3 lea4 lea5 lea6 lea7 lea8 mvb0 mvb1 mvb2 mvb3 mvb4 mvb5 mvb6 mvb7 mvb8 spellings narrow)
}
