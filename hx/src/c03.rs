//! C03: label references resolve to the label.
//!
//! Proved: what every label-taking instruction writes and records (against the same instruction
//! with an explicit displacement), in-section resolution (`resolve_statically`) for every position
//! and addend, and section positions.  Searched: whole objects, linked here by the rules of the
//! System V psABI at arbitrary section addresses; afterwards every reference must designate its
//! label.
use crate::dec::Sink;
use crate::regs::*;
use kit::*;
use std::io::{self, Write};
use xten::asm::*;

/// A section that records what an instruction writes and which label use it asks for.
pub struct Rec { pub k: Sink, pub used: u32, pub off: i64, pub addend: i64, pub label: Option<Label>, pub ty: Option<RelocType>, pub base: u64, w: Writer }
impl Rec {
    pub fn new(base: u64) -> Self { Rec { k: Sink::new(), used: 0, off: 0, addend: 0, label: None, ty: None, base, w: Writer::new() } }
}
impl Write for Rec {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.k.write(b) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.k.write_all(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl SectionWrite for Rec {
    fn writer(&mut self) -> &mut Writer { &mut self.w }
    fn location(&self) -> Location { Location::new(LocationSection::Text, self.base + self.k.n as u64) }
    fn use_relative(&mut self, off: i64, label: Label, addend: i64, ty: RelocType) {
        self.used += 1;
        self.off = off; self.addend = addend; self.label = Some(label); self.ty = Some(ty);
    }
    fn allocate(&mut self, _size: u64) -> io::Result<()> { Ok(()) }
}

/// `rec` was written for a label; `plain` is the same instruction with the displacement `d`.
/// Patching `d` at the recorded place must give `plain`, and the recorded addend must make
/// S + A - P the distance from the end of the instruction.
fn check(rec: &Rec, l: Label, ty: RelocType, plain: &Sink, d: u64, width: u32) {
    chk!(rec.used == 1, "label reference: exactly one use is recorded");
    chk!(rec.label == Some(l), "label reference: the use names the label");
    chk!(rec.ty == Some(ty), "label reference: relocation kind");
    chk!(rec.k.n == plain.n, "label reference: instruction length");
    let off = rec.off;
    chk!(off <= -(width as i64) && -off <= rec.k.n as i64, "label reference: the field lies inside the instruction");
    chk!(rec.addend == off, "label reference: S + A - P is the distance from the end of the instruction");
    let up = (-off) as u32 - width; // bytes behind the field
    if up < 12 {
        let mask: u128 = if width == 1 { 0xff } else { 0xffff_ffff };
        let le = if width == 1 { d as u8 as u128 } else { (d as u32).swap_bytes() as u128 };
        let patched = (rec.k.v & !(mask << (8 * up))) | (le << (8 * up));
        chk!(patched == plain.v, "label reference: patching the recorded field gives the instruction with that displacement");
    }
}
fn label<S: Src>(s: &mut S) -> Label { Label::new_for_verif(s) }
trait NewLabel { fn new_for_verif<S: Src>(s: &mut S) -> Label; }
impl NewLabel for Label {
    fn new_for_verif<S: Src>(s: &mut S) -> Label {
        let mut w = Writer::new();
        let n = s.below(3);
        let mut l = w.issue_label();
        if n >= 1 { l = w.issue_label(); }
        if n >= 2 { l = w.issue_label(); }
        l
    }
}

macro_rules! branches {
    ($($n:ident: $($m:ident)*;)*) => { $(
        kit::obligation!($n, kani, unwind = 6, |s| {
            let l = label(s);
            let base = s.u64() >> 8;
            $( {
                let d = s.i32();
                note(|| format!("{} label, displacement {}", stringify!($m), d));
                let mut r = Rec::new(base);
                let _ = r.$m(l);
                let mut p = Sink::new();
                let _ = p.$m(d);
                check(&r, l, RelocType::PcRel32, &p, d as u32 as u64, 4);
                let mut r = Rec::new(base);
                let _ = r.$m(Short(l));
                let mut p = Sink::new();
                let _ = p.$m(d as i8);
                check(&r, l, RelocType::PcRel8, &p, d as u8 as u64, 1);
            } )*
            reach!("branches");
        });
    )* }
}
branches! {
    br0: jmpq ja jae jb jbe jc je jg jge;
    br1: jl jle jna jnae jnb jnbe jnc jne;
    br2: jng jnge jnl jnle jno jnp jns jnz;
    br3: jo jp jpe jpo js jz;
}
kit::obligation!(calls, kani, unwind = 6, |s| {
    let l = label(s);
    let base = s.u64() >> 8;
    let d = s.i32();
    let g = gpr64_of(s.below(16));
    let x = xmm_of(s.below(16));
    let imm = s.i32();
    let m = memory(Rip + d);
    note(|| format!("label displacement {} {:?} {:?} imm {}", d, g, x, imm));
    macro_rules! one { ($ty:ident, $l:expr; $f:ident ( $($a:expr),* ) ; $p:ident ( $($b:expr),* )) => { {
        let mut r = Rec::new(base);
        let _ = r.$f($($a),*);
        let mut p = Sink::new();
        let _ = p.$p($($b),*);
        check(&r, l, RelocType::$ty, &p, d as u32 as u64, 4);
    } } }
    one!(PcRel32, l; callq(l); callq(d));
    one!(PcRelToAddressTable32, l; callq(AddressTable(l)); callq(m));
    one!(PcRelToAddressTable32, l; jmpq(AddressTable(l)); jmpq(m));
    one!(PcRel32, l; movq(l, g); movq(m, g));
    one!(PcRel32, l; movq(l, x); movq(m, x));
    one!(PcRel32, l; movq(l, imm); movq(m, imm));
    one!(PcRel32, l; movq(g, l); movq(g, m));
    one!(PcRel32, l; movq(x, l); movq(x, m));
    one!(PcRelToAddressTable32, l; movq(g, AddressTable(l)); movq(g, m));
    one!(PcRelToAddressTable32, l; movq(x, AddressTable(l)); movq(x, m));
    one!(PcRel32, l; leaq(g, l); leaq(g, m));
    reach!("calls");
});

/// Memory that only remembers one write.
struct Patch { pos: u64, seeks: u32, at: u64, k: Sink, bad: bool }
impl Write for Patch {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.write_all(b)?; Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        if self.k.n == 0 { self.at = self.pos } else if self.at.wrapping_add(self.k.n as u64) != self.pos { self.bad = true }
        self.pos = self.pos.wrapping_add(b.len() as u64);
        self.k.write_all(b)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl io::Seek for Patch {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        match p { io::SeekFrom::Start(v) => self.pos = v, io::SeekFrom::Current(d) => self.pos = self.pos.wrapping_add(d as u64), io::SeekFrom::End(_) => self.bad = true }
        Ok(self.pos)
    }
}
// In-section resolution: for all positions and addends, either the field at the place receives
// S + A - P (which fits), or the relocation is kept.
kit::obligation!(resolve, kani, unwind = 9, |s| {
    let def = s.u64();
    let at = s.u64();
    let addend = s.i64();
    let ty = match s.below(4) { 0 => RelocType::PcRel8, 1 => RelocType::PcRel32, 2 => RelocType::PcRelToAddressTable32, _ => RelocType::Abs64 };
    s.assume(def < 1 << 40 && at < 1 << 40 && addend > -(1 << 40) && addend < 1 << 40);
    let want = def as i64 + addend - at as i64;
    // out-of-range values are refused (panic); only in-range ones are resolved
    match ty { RelocType::PcRel8 => s.assume(want >= -128 && want <= 127), RelocType::PcRel32 => s.assume(want >= i32::MIN as i64 && want <= i32::MAX as i64), _ => {} }
    note(|| format!("{:?} def {} place {} addend {}", ty, def, at, addend));
    let mut p = Patch { pos: s.u64(), seeks: 0, at: 0, k: Sink::new(), bad: false };
    let r = ty.resolve_statically(&mut p, def, at, addend);
    match r {
        Err(_) => chk!(false, "in-section resolution does not fail"),
        Ok(false) => {
            chk!(p.k.n == 0, "an unresolved reference leaves the section alone");
            reach!("kept");
        }
        Ok(true) => {
            chk!(!p.bad && p.at == at, "in-section resolution patches the place of the reference");
            let ok = match ty {
                RelocType::PcRel8 => p.k.n == 1 && p.k.v as u8 as i8 as i64 == want,
                RelocType::PcRel32 => p.k.n == 4 && (p.k.v as u32).swap_bytes() as i32 as i64 == want,
                // absolute and table references depend on the load address
                _ => false,
            };
            chk!(ok, "in-section resolution writes S + A - P at the field width");
            reach!("resolved");
        }
    }
});
kit::obligation!(positions, kani, unwind = 4, |s| {
    let mut w = Writer::new();
    let a = s.u64() >> 2;
    let b = s.u64() >> 2;
    let k = s.below(16);
    let al = 1u64 << k;
    let off = s.i64();
    note(|| format!("bss {} + {} align {}", a, b, al));
    let _ = w.bss().allocate(a);
    chk!(w.bss().location() == Location::new(LocationSection::Bss, a), "allocation advances the position");
    let _ = w.bss().align(al);
    let p = w.bss().location().pos;
    chk!(p % al == 0 && p >= a && p - a < al, "alignment moves to the next multiple");
    let _ = w.bss().allocate(b);
    chk!(w.bss().location().pos == p + b, "allocation after alignment");
    if off >= 0 && (off as u64) < 1 << 62 {
        chk!(Location::new(LocationSection::Data, a).offset(off) == Location::new(LocationSection::Data, a + off as u64), "location offset");
        if off as u64 <= a { chk!(Location::new(LocationSection::Data, a).offset(-off) == Location::new(LocationSection::Data, a - off as u64), "negative location offset"); }
    }
    reach!("positions");
});

// ------------------------------------------------------------------ whole objects (searched)
#[cfg(not(kani))]
pub mod whole {
    use super::*;
    use std::collections::BTreeMap;

    /// What a reference was written as.
    #[derive(Debug, Clone)]
    pub struct Ref { pub sec: LocationSection, pub start: usize, pub end: usize, pub label: usize, pub kind: RelocType, pub plain: Vec<u8>, pub field: usize, pub addend: i64 }
    #[derive(Debug, Clone, Default)]
    pub struct Model {
        pub names: Vec<Option<String>>,
        pub defs: Vec<Option<(LocationSection, u64, bool)>>,
        pub refs: Vec<Ref>,
        pub secs: BTreeMap<LocationSection, Vec<u8>>,
        pub bss: u64,
        pub log: Vec<String>,
    }
    pub const SECS: [LocationSection; 3] = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata];

    /// Build a random object through the public API, next to a model of what was asked for.
    pub fn build<S: Src>(s: &mut S, max_ops: u64, prefix: &str) -> (Writer, Model) {
        let mut w = Writer::new();
        let mut m = Model::default();
        for k in SECS { m.secs.insert(k, vec![]); }
        let nl = 1 + s.below(7) as usize;
        let mut labels = vec![];
        for i in 0..nl {
            let name = match s.below(3) { 0 => None, 1 => Some(format!("{}sym{}", prefix, i)), _ => Some(format!("{}{}", prefix, ["z", "a.b", "λ", "_x"][i % 4].repeat(i + 1))) };
            let l = match &name { Some(n) => w.get_label(n), None => w.issue_label() };
            labels.push(l);
            m.names.push(name);
            m.defs.push(None);
        }
        for i in 0..nl { if let Some(n) = &m.names[i] { chk!(w.get_label(n) == labels[i], "the same name is the same label"); } }
        let n = s.below(max_ops + 1);
        for _ in 0..n {
            let op = s.below(20);
            let li = s.below(nl as u64) as usize;
            let l = labels[li];
            macro_rules! text { ($($e:expr),* ; $p:expr; $kind:ident, $w:expr, $imm:expr) => { {
                let start = m.secs[&LocationSection::Text].len();
                $($e;)*
                let plain: Vec<u8> = { let mut v: Vec<u8> = vec![]; let f: fn(&mut Vec<u8>) -> io::Result<()> = $p; f(&mut v).unwrap(); v };
                let end = start + plain.len();
                m.secs.get_mut(&LocationSection::Text).unwrap().extend(&plain);
                m.refs.push(Ref { sec: LocationSection::Text, start, end, label: li, kind: RelocType::$kind, plain, field: end - $w - $imm, addend: -($w + $imm) as i64 });
                m.log.push(format!("{} @{}", stringify!($($e),*), start));
            } } }
            match op {
                0 => text!(w.callq(l).unwrap(); |v| v.callq(0i32); PcRel32, 4, 0),
                1 => text!(w.jmpq(l).unwrap(); |v| v.jmpq(0i32); PcRel32, 4, 0),
                2 => text!(w.jne(l).unwrap(); |v| v.jne(0i32); PcRel32, 4, 0),
                3 => text!(w.leaq(R9, l).unwrap(); |v| v.leaq(R9, memory(Rip + 0i32)); PcRel32, 4, 0),
                4 => text!(w.movq(l, 77i32).unwrap(); |v| v.movq(memory(Rip + 0i32), 77i32); PcRel32, 4, 4),
                5 => text!(w.movq(Xmm9, l).unwrap(); |v| v.movq(Xmm9, memory(Rip + 0i32)); PcRel32, 4, 0),
                6 => { if m.names[li].is_some() { text!(w.movq(Rdx, AddressTable(l)).unwrap(); |v| v.movq(Rdx, memory(Rip + 0i32)); PcRelToAddressTable32, 4, 0) } }
                7 => { if m.names[li].is_some() { text!(w.callq(AddressTable(l)).unwrap(); |v| v.callq(memory(Rip + 0i32)); PcRelToAddressTable32, 4, 0) } }
                8 => text!(w.text().movq(l, R12).unwrap(); |v| v.movq(memory(Rip + 0i32), R12); PcRel32, 4, 0),
                // absolute words in data
                9 | 10 => {
                    let ad = (s.i8()) as i64;
                    let sec = if op == 9 { LocationSection::Data } else { LocationSection::Rodata };
                    let start = m.secs[&sec].len();
                    if sec == LocationSection::Data { w.data().write_all(&[0; 8]).unwrap(); w.data().use_relative(-8, l, ad, RelocType::Abs64); }
                    else { w.rodata().write_all(&[0; 8]).unwrap(); w.rodata().use_relative(-8, l, ad, RelocType::Abs64); }
                    m.secs.get_mut(&sec).unwrap().extend([0; 8]);
                    m.refs.push(Ref { sec, start, end: start + 8, label: li, kind: RelocType::Abs64, plain: vec![0; 8], field: start, addend: ad });
                    m.log.push(format!("abs64 in {:?} @{} label {} + {}", sec, start, li, ad));
                }
                // definitions
                11..=15 => {
                    if m.defs[li].is_none() {
                        let glob = s.bool() && m.names[li].is_some();
                        let (sec, pos) = match op {
                            11 | 12 => { w.define(l, glob); (LocationSection::Text, m.secs[&LocationSection::Text].len() as u64) }
                            13 => { w.data().define(l, glob); (LocationSection::Data, m.secs[&LocationSection::Data].len() as u64) }
                            14 => { w.rodata().define(l, glob); (LocationSection::Rodata, m.secs[&LocationSection::Rodata].len() as u64) }
                            _ => { w.bss().define(l, glob); let p = m.bss; let n = s.below(40); w.bss().allocate(n).unwrap(); m.bss += n; (LocationSection::Bss, p) }
                        };
                        m.defs[li] = Some((sec, pos, glob));
                        m.log.push(format!("define {} {:?} {} {}", li, sec, pos, glob));
                    }
                }
                // filler
                16 => { let n = s.below(200) as usize; let b = vec![0xc3u8; n]; w.write_all(&b).unwrap(); m.secs.get_mut(&LocationSection::Text).unwrap().extend(&b); }
                17 => { let n = s.below(20) as usize; let b: Vec<u8> = (0..n as u8).collect(); w.data().write_all(&b).unwrap(); m.secs.get_mut(&LocationSection::Data).unwrap().extend(&b); }
                18 => { let n = s.below(20) as usize; let b: Vec<u8> = (0..n as u8).map(|x| 200 - x).collect(); w.rodata().write_all(&b).unwrap(); m.secs.get_mut(&LocationSection::Rodata).unwrap().extend(&b); }
                _ => {
                    let a = 1u64 << s.below(6);
                    let which = s.below(3) as usize;
                    let (sec, fill) = [(LocationSection::Text, 0x90u8), (LocationSection::Data, 0), (LocationSection::Rodata, 0)][which];
                    match which { 0 => w.align(a).unwrap(), 1 => w.data().align(a).unwrap(), _ => w.rodata().align(a).unwrap() }
                    let v = m.secs.get_mut(&sec).unwrap();
                    while v.len() as u64 % a != 0 { v.push(fill) }
                }
            }
            // positions are where the model says
            chk!(w.location().pos as usize == m.secs[&LocationSection::Text].len(), "text position");
            chk!(w.data().location().pos as usize == m.secs[&LocationSection::Data].len(), "data position");
            chk!(w.rodata().location().pos as usize == m.secs[&LocationSection::Rodata].len(), "rodata position");
            chk!(w.bss().location().pos == m.bss, "bss position");
        }
        (w, m)
    }
    pub fn base(sec: LocationSection) -> u64 {
        match sec { LocationSection::Text => 0x40_0000, LocationSection::Data => 0x51_2340, LocationSection::Rodata => 0x1f_8000, LocationSection::Bss => 0x62_0010 }
    }
    pub const EXT: u64 = 0x70_0000;
    pub const GOT: u64 = 0x55_0000;
    /// The address a label has after linking.
    pub fn addr_of(m: &Model, li: usize) -> u64 {
        match m.defs[li] { Some((sec, pos, _)) => base(sec) + pos, None => EXT + 0x1000 * li as u64 }
    }
    /// Patch `v` into `buf` the way the psABI prescribes.
    pub fn patch(buf: &mut [u8], pos: usize, ty: RelocType, s: u64, got: u64, a: i64, place: u64) {
        match ty {
            RelocType::PcRel8 => buf[pos] = (s as i64 + a - place as i64) as i8 as u8,
            RelocType::PcRel32 => buf[pos..pos + 4].copy_from_slice(&((s as i64 + a - place as i64) as i32).to_le_bytes()),
            RelocType::PcRelToAddressTable32 => buf[pos..pos + 4].copy_from_slice(&((got as i64 + a - place as i64) as i32).to_le_bytes()),
            RelocType::Abs64 => buf[pos..pos + 8].copy_from_slice(&((s as i64 + a) as u64).to_le_bytes()),
        }
    }
    pub fn produceable(m: &Model) -> bool { m.refs.iter().all(|r| m.defs[r.label].is_some() || m.names[r.label].is_some()) }
    /// The linked sections, as the references demand (independent of the object's relocations).
    pub fn expected(m: &Model) -> BTreeMap<LocationSection, Vec<u8>> {
        let mut out = m.secs.clone();
        for r in &m.refs {
            let buf = out.get_mut(&r.sec).unwrap();
            let t = addr_of(m, r.label);
            patch(buf, r.field, r.kind, t, GOT + 8 * r.label as u64, r.addend, base(r.sec) + r.field as u64);
        }
        out
    }
    /// Link the produced object.
    pub fn link(o: &Object, m: &Model) -> BTreeMap<LocationSection, Vec<u8>> {
        let mut out = BTreeMap::new();
        out.insert(LocationSection::Text, o.text.clone());
        out.insert(LocationSection::Data, o.data.clone());
        out.insert(LocationSection::Rodata, o.rodata.clone());
        for r in &o.relocs {
            let (s, got) = match &r.target {
                RelocTarget::Section(sec) => {
                    chk!(r.ty != RelocType::PcRelToAddressTable32, "an address-table reference needs a symbol");
                    (base(*sec), 0)
                }
                RelocTarget::Symbol(n) => {
                    let li = m.names.iter().position(|x| x.as_deref() == Some(n.as_str()));
                    chk!(li.is_some(), "a relocation names a known symbol");
                    (addr_of(m, li.unwrap()), GOT + 8 * li.unwrap() as u64)
                }
            };
            let buf: &mut Vec<u8> = out.get_mut(&r.location.section).unwrap();
            let w = match r.ty { RelocType::PcRel8 => 1, RelocType::Abs64 => 8, _ => 4 };
            chk!(r.location.pos as usize + w <= buf.len(), "a relocation lies inside its section");
            patch(buf, r.location.pos as usize, r.ty, s, got, r.addend, base(r.location.section) + r.location.pos);
        }
        out
    }
    pub fn symbols_ok(o: &Object, m: &Model) {
        let mut want: Vec<Symbol> = vec![];
        for i in 0..m.names.len() {
            if let Some(n) = &m.names[i] {
                let b = match m.defs[i] {
                    Some((sec, pos, false)) => Binding::Local(Location::new(sec, pos)),
                    Some((sec, pos, true)) => Binding::Global(Some(Location::new(sec, pos))),
                    None => Binding::Global(None),
                };
                want.push(Symbol::new(n.clone(), b));
            }
        }
        want.sort();
        want.dedup();
        let mut got = o.symbols.clone();
        got.sort();
        chk!(got == want, "symbols carry name, section, offset and visibility of their definition");
    }
}

kit::obligation!(objects, native, |s| {
    let (w, m) = whole::build(s, 40, "");
    note(|| format!("{:?}", m.log));
    let r = w.produce();
    if !whole::produceable(&m) {
        chk!(r.is_err(), "a reference to an undefined unnamed label is an error");
        reach!("unresolvable");
        return;
    }
    chk!(r.is_ok(), "an object whose references can be resolved is produced");
    let o = r.unwrap();
    whole::symbols_ok(&o, &m);
    chk!(o.bss == m.bss, "bss size");
    let want = whole::expected(&m);
    let got = whole::link(&o, &m);
    chk!(got == want, "after linking every reference designates its label and nothing else changed");
    reach!("linked");
});
// Short references: in range they designate the label, out of range they are refused.
kit::obligation!(short, native, |s| {
    let gap = s.below(300) as usize;
    let back = s.bool();
    note(|| format!("gap {} backward {}", gap, back));
    let r = std::panic::catch_unwind(|| {
        let mut w = Writer::new();
        let l = w.issue_label();
        if back { w.define(l, false); w.write_all(&vec![0x90; gap]).unwrap(); }
        w.jmpq(Short(l)).unwrap();
        if !back { w.write_all(&vec![0x90; gap]).unwrap(); w.define(l, false); }
        w.produce()
    });
    let want: i64 = if back { -(gap as i64) - 2 } else { gap as i64 };
    let fits = want >= -128 && want <= 127;
    match r {
        Ok(Ok(o)) => {
            chk!(fits, "an out-of-range short reference is refused");
            let at = if back { gap + 1 } else { 1 };
            chk!(o.text[at] as i8 as i64 == want, "a short reference designates its label");
        }
        _ => chk!(!fits, "an in-range short reference is accepted"),
    }
    reach!("short");
});
// An address-table reference to a label without a name has no symbol to go through.
kit::obligation!(table_unnamed, native, |s| {
    let mut w = Writer::new();
    let l = w.issue_label();
    let gap = s.below(50) as usize;
    let def_first = s.bool();
    if def_first { w.define(l, false); }
    w.write_all(&vec![0x90; gap]).unwrap();
    w.movq(Rax, AddressTable(l)).unwrap();
    if !def_first { w.define(l, false); }
    note(|| format!("movq rax, [table of an unnamed label], gap {}", gap));
    if let Ok(o) = w.produce() {
        for r in &o.relocs {
            chk!(!(r.ty == RelocType::PcRelToAddressTable32 && matches!(r.target, RelocTarget::Section(_))), "an address-table reference is never expressed against a section");
        }
    }
    reach!("table_unnamed");
});

#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C03", c03::br0, 1, kani), kit::entry!("C03", c03::br1, 1, kani), kit::entry!("C03", c03::br2, 1, kani), kit::entry!("C03", c03::br3, 1, kani),
        kit::entry!("C03", c03::calls, 1, kani), kit::entry!("C03", c03::resolve, 2, kani), kit::entry!("C03", c03::positions, 1, kani),
        kit::entry!("C03", c03::objects, 12, native, "objects of at most 40 operations, 7 labels"),
        kit::entry!("C03", c03::short, 1, native, "gaps up to 300 bytes"),
        kit::entry!("C03", c03::table_unnamed, 1, native, "gaps up to 50 bytes"),
    ]
}
