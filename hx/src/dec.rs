//! Specification side: a decoder for the x86-64 instruction format (Intel SDM vol. 2, ch. 2).
use crate::regs::*;

/// Receives the bytes of one instruction.  The bytes are kept in a shift register so that the
/// verifier never sees a symbolic array index.
pub struct Sink { pub v: u128, pub n: u32 }
impl Sink {
    pub fn new() -> Self { Sink { v: 0, n: 0 } }
    #[inline]
    pub fn push(&mut self, b: u8) { self.v = (self.v << 8) | b as u128; self.n += 1; }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.write_all(b)?; Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        // whole numbers at once: the verifier unwinds no loop
        match *b {
            [a] => self.push(a),
            [a, b] => { self.v = (self.v << 16) | ((a as u128) << 8 | b as u128); self.n += 2; }
            [a, b, c, d] => { self.v = (self.v << 32) | u32::from_be_bytes([a, b, c, d]) as u128; self.n += 4; }
            [a, b, c, d, e, f, g, h] => { self.v = (self.v << 64) | u64::from_be_bytes([a, b, c, d, e, f, g, h]) as u128; self.n += 8; }
            _ => { let mut i = 0; while i < b.len() { self.push(b[i]); i += 1; } }
        }
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// What an operand denotes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Opv {
    /// 16/32/64-bit general purpose register
    G(u8),
    /// 8-bit register: 0..=15 low bytes, 16..=19 AH CH DH BH
    B(u8),
    X(u8),
    M(Ea),
    I8(i8), I16(i16), I32(i32), I64(i64),
    /// implied by the opcode
    F,
}
impl Opv {
    pub fn ext(&self) -> bool { match self { Opv::G(c) | Opv::X(c) => *c >= 8, Opv::B(c) => *c >= 8 && *c < 16, Opv::M(e) => mem_uses_ext(e), _ => false } }
    pub fn wants_rex(&self) -> bool { matches!(self, Opv::B(4..=7)) }
    pub fn denies_rex(&self) -> bool { matches!(self, Opv::B(16..=19)) }
}

/// Legacy prefixes: 66, 67, F2, F3.
#[derive(Clone, Copy, Debug)]
pub struct Pre { pub p66: bool, pub p67: bool, pub pf2: bool, pub pf3: bool, pub n: u8 }
pub const fn pre(b: &[u8]) -> Pre {
    let mut p = Pre { p66: false, p67: false, pf2: false, pf3: false, n: b.len() as u8 };
    let mut i = 0;
    while i < b.len() {
        match b[i] { 0x66 => p.p66 = true, 0x67 => p.p67 = true, 0xf2 => p.pf2 = true, 0xf3 => p.pf3 = true, _ => panic!() }
        i += 1;
    }
    p
}
pub const fn op(b: &[u8]) -> [u8; 3] {
    let mut o = [0; 3];
    let mut i = 0;
    while i < b.len() { o[i] = b[i]; i += 1; }
    o
}

/// One row of the instruction table.
#[derive(Debug)]
pub struct Row {
    /// legacy prefixes (mandatory and operand/address size)
    pub pre: Pre,
    pub w: bool,
    /// opcode bytes, the number of them
    pub op: [u8; 3], pub opn: u8,
    /// -1: none, 0..=7: /digit, 8: /r
    pub modrm: i8,
    /// operand indices, -1: none
    pub reg: i8, pub rm: i8, pub opreg: i8, pub imm: i8,
}

fn reg_matches(o: &Opv, rex: bool, code: u8) -> bool {
    match o {
        Opv::G(c) | Opv::X(c) => *c == code,
        // without any REX prefix codes 4..7 are AH..BH, with one they are SPL..DIL
        Opv::B(c) => if !rex && code >= 4 && code < 8 { *c == code + 12 } else { *c == code },
        _ => false,
    }
}

/// Reads the bytes from the front; the next byte is always the top one.
struct Cur { v: u128, left: u32 }
impl Cur {
    fn of(k: &Sink) -> Cur { Cur { v: if k.n == 0 || k.n > 15 { 0 } else { k.v << (8 * (16 - k.n)) }, left: k.n } }
    fn peek(&self) -> u8 { (self.v >> 120) as u8 }
    fn skip(&mut self, n: u32) { self.v <<= 8 * n; self.left = self.left.wrapping_sub(n); }
    fn take(&mut self) -> u8 { let b = self.peek(); self.skip(1); b }
    fn le8(&mut self) -> u64 { self.take() as u64 }
    fn le16(&mut self) -> u64 { let v = ((self.v >> 112) as u16).swap_bytes(); self.skip(2); v as u64 }
    fn le32(&mut self) -> u64 { let v = ((self.v >> 96) as u32).swap_bytes(); self.skip(4); v as u64 }
    fn le64(&mut self) -> u64 { let v = ((self.v >> 64) as u64).swap_bytes(); self.skip(8); v }
}

/// Do the bytes decode as exactly one instruction, the one the row and operands describe?
pub fn decodes(k: &Sink, row: &Row, ops: &[Opv; 3]) -> bool {
    if k.n == 0 || k.n > 15 { return false; }
    let mut c = Cur::of(k);
    let (mut p66, mut p67, mut pf2, mut pf3) = (false, false, false, false);
    // legacy prefixes, any order
    let mut i = 0;
    while i < row.pre.n {
        match c.peek() { 0x66 => p66 = true, 0x67 => p67 = true, 0xf2 => pf2 = true, 0xf3 => pf3 = true, _ => break }
        c.skip(1);
        i += 1;
    }
    if p66 != row.pre.p66 || p67 != row.pre.p67 || pf2 != row.pre.pf2 || pf3 != row.pre.pf3 { return false; }
    // REX
    let mut rex = false;
    let (mut w, mut r, mut x, mut b) = (false, 0u8, 0u8, 0u8);
    if c.peek() & 0xf0 == 0x40 {
        rex = true;
        let v = c.take();
        w = v & 8 != 0; r = (v & 4) << 1; x = (v & 2) << 2; b = (v & 1) << 3;
    }
    if w != row.w { return false; }
    // opcode
    let mut i = 0;
    while i < row.opn as usize {
        let last = i + 1 == row.opn as usize;
        let v = c.take();
        if last && row.opreg >= 0 {
            if v & 0xf8 != row.op[i] { return false; }
            if !reg_matches(&ops[row.opreg as usize], rex, (v & 7) | b) { return false; }
        } else if v != row.op[i] { return false; }
        i += 1;
    }
    if row.modrm >= 0 {
        let v = c.take();
        let (md, rg, rm) = (v >> 6, (v >> 3) & 7, v & 7);
        if row.modrm < 8 { if rg != row.modrm as u8 { return false; } }
        else if row.reg >= 0 { if !reg_matches(&ops[row.reg as usize], rex, rg | r) { return false; } }
        if row.rm >= 0 {
            let o = &ops[row.rm as usize];
            if md == 3 {
                if !reg_matches(o, rex, rm | b) { return false; }
            } else {
                let want = match o { Opv::M(e) => *e, _ => return false };
                let mut ea = Ea { base: NONE, index: NONE, scale: 1, disp: 0 };
                let mut dn = match md { 1 => 1usize, 2 => 4, _ => 0 };
                if rm == 4 {
                    let sib = c.take();
                    let idx = ((sib >> 3) & 7) | x;
                    if idx != 4 { ea.index = idx; ea.scale = 1 << (sib >> 6); }
                    if sib & 7 == 5 && md == 0 { dn = 4; } else { ea.base = (sib & 7) | b; }
                } else if rm == 5 && md == 0 {
                    ea.base = RIP;
                    dn = 4;
                } else { ea.base = rm | b; }
                ea.disp = match dn { 1 => c.le8() as u8 as i8 as i32, 4 => c.le32() as u32 as i32, _ => 0 };
                if !same_address(&ea, &want) { return false; }
            }
        } else if md != 3 {
            // no operand in ModRM.rm: the byte must at least be complete by itself
            if rm == 4 || (rm == 5 && md == 0) || md == 1 || md == 2 { return false; }
        }
    }
    if row.imm >= 0 {
        let ok = match ops[row.imm as usize] {
            Opv::I8(v) => c.le8() == v as u8 as u64, Opv::I16(v) => c.le16() == v as u16 as u64,
            Opv::I32(v) => c.le32() == v as u32 as u64, Opv::I64(v) => c.le64() == v as u64, _ => false,
        };
        if !ok { return false; }
    }
    c.left == 0
}

/// base+index with scale 1 and no special registers commute
pub fn same_address(a: &Ea, b: &Ea) -> bool {
    a.disp == b.disp
        && ((a.base == b.base && a.index == b.index && (a.scale == b.scale || a.index == NONE))
            || (a.base == b.index && a.index == b.base && a.scale == 1 && b.scale == 1)
            // [index*1] is [base]
            || (a.base == NONE && a.scale == 1 && a.index == b.base && b.index == NONE)
            || (b.base == NONE && b.scale == 1 && b.index == a.base && a.index == NONE))
}

/// Is the operand combination encodable (AH..BH exclude a REX prefix)?
pub fn encodable(row_w: bool, ops: &[Opv; 3]) -> bool {
    let deny = ops[0].denies_rex() || ops[1].denies_rex() || ops[2].denies_rex();
    let need = row_w || ops[0].ext() || ops[1].ext() || ops[2].ext() || ops[0].wants_rex() || ops[1].wants_rex() || ops[2].wants_rex();
    !(deny && need)
}

