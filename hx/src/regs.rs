//! Arbitrary operands, each paired with its meaning (the specification side).
use kit::Src;
use xten::asm::*;

pub fn gpr64_of(c: u64) -> Gpr64 {
    match c { 0 => Rax, 1 => Rcx, 2 => Rdx, 3 => Rbx, 4 => Rsp, 5 => Rbp, 6 => Rsi, 7 => Rdi, 8 => R8, 9 => R9, 10 => R10, 11 => R11, 12 => R12, 13 => R13, 14 => R14, _ => R15 }
}
pub fn gpr32_of(c: u64) -> Gpr32 {
    match c { 0 => Eax, 1 => Ecx, 2 => Edx, 3 => Ebx, 4 => Esp, 5 => Ebp, 6 => Esi, 7 => Edi, 8 => R8D, 9 => R9D, 10 => R10D, 11 => R11D, 12 => R12D, 13 => R13D, 14 => R14D, _ => R15D }
}
pub fn gpr16_of(c: u64) -> Gpr16 {
    match c { 0 => Ax, 1 => Cx, 2 => Dx, 3 => Bx, 4 => Sp, 5 => Bp, 6 => Si, 7 => Di, 8 => R8W, 9 => R9W, 10 => R10W, 11 => R11W, 12 => R12W, 13 => R13W, 14 => R14W, _ => R15W }
}
/// 0..=15: low bytes of the sixteen registers; 16..=19: AH, CH, DH, BH.
pub fn gpr8_of(c: u64) -> Gpr8 {
    match c { 0 => Al, 1 => Cl, 2 => Dl, 3 => Bl, 4 => Spl, 5 => Bpl, 6 => Sil, 7 => Dil, 8 => R8B, 9 => R9B, 10 => R10B, 11 => R11B, 12 => R12B, 13 => R13B, 14 => R14B, 15 => R15B, 16 => Ah, 17 => Ch, 18 => Dh, _ => Bh }
}
pub fn xmm_of(c: u64) -> Xmm {
    match c { 0 => Xmm0, 1 => Xmm1, 2 => Xmm2, 3 => Xmm3, 4 => Xmm4, 5 => Xmm5, 6 => Xmm6, 7 => Xmm7, 8 => Xmm8, 9 => Xmm9, 10 => Xmm10, 11 => Xmm11, 12 => Xmm12, 13 => Xmm13, 14 => Xmm14, _ => Xmm15 }
}

/// The meaning of a memory operand: base + index*scale + disp.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ea { pub base: u8, pub index: u8, pub scale: u8, pub disp: i32 }
pub const NONE: u8 = 0xff;
pub const RIP: u8 = 0xfe;

/// Every way the public API can form a memory operand.
pub fn any_mem<S: Src>(s: &mut S) -> (Memory, Ea) {
    // the proofs of the individual instructions use [base + disp32 + index * scale], which has every
    // part an operand can have (REX.B, REX.X, SIB, displacement); C01 proves every form
    let kind = s.case(9, 8);
    mem_of_kind(s, kind)
}
pub fn mem_of_kind<S: Src>(s: &mut S, kind: u64) -> (Memory, Ea) {
    let b = s.below(16);
    let i = s.below(16);
    let k = s.below(4) as u8;
    let d32 = s.i32();
    let d8 = d32 as i8;
    let base = gpr64_of(b);
    let scale = 1u8 << k;
    let with_index = matches!(kind, 1 | 6 | 7 | 8);
    if with_index { s.assume(i != 4) } // RSP cannot be an index register
    let index = if with_index { gpr64_of(i) } else { Rax };
    let bi = b as u8;
    let ii = i as u8;
    match kind {
        0 => { s.assume(d32 >= 0); (memory(d32), Ea { base: NONE, index: NONE, scale: 1, disp: d32 }) }
        1 => (memory(d32 + index * scale), Ea { base: NONE, index: ii, scale, disp: d32 }),
        2 => (memory(Rip + d32), Ea { base: RIP, index: NONE, scale: 1, disp: d32 }),
        3 => (memory(base), Ea { base: bi, index: NONE, scale: 1, disp: 0 }),
        4 => (memory(base + d8), Ea { base: bi, index: NONE, scale: 1, disp: d8 as i32 }),
        5 => (memory(base + d32), Ea { base: bi, index: NONE, scale: 1, disp: d32 }),
        6 => (memory(base + index * scale), Ea { base: bi, index: ii, scale, disp: 0 }),
        7 => (memory(base + d8 + index * scale), Ea { base: bi, index: ii, scale, disp: d8 as i32 }),
        _ => (memory(base + d32 + index * scale), Ea { base: bi, index: ii, scale, disp: d32 }),
    }
}
/// Memory operands without the RIP-relative form.
pub fn mem_uses_ext(e: &Ea) -> bool { (e.base >= 8 && e.base < 16) || (e.index >= 8 && e.index < 16) }
