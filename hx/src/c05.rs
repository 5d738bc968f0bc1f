//! C05: emitted ELF object files say what the assembler produced.
#[cfg(not(kani))]
use crate::c03::whole;
use kit::*;
use std::io::{self, Write};
use xten::asm::*;
use xten::elf::format as ef;
use xten::elf::format::{AddSection, Section, SectionBody, SectionType, Shndx};

// ------------------------------------------------------------------ an independent reader
#[cfg(not(kani))]
pub mod read {
    use super::*;
    pub fn u16_(b: &[u8], o: usize) -> u64 { u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as u64 }
    pub fn u32_(b: &[u8], o: usize) -> u64 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as u64 }
    pub fn u64_(b: &[u8], o: usize) -> u64 { u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) }
    #[derive(Debug, Clone)]
    pub struct Sh { pub name: String, pub ty: u64, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64, pub link: u64, pub info: u64, pub align: u64, pub ent: u64 }
    pub fn cstr(b: &[u8], at: u64) -> String {
        let at = at as usize;
        chk!(at < b.len(), "a name is inside its string table");
        let e = b[at..].iter().position(|c| *c == 0);
        chk!(e.is_some(), "a name ends inside its string table");
        String::from_utf8_lossy(&b[at..at + e.unwrap()]).into_owned()
    }
    pub fn body<'a>(f: &'a [u8], s: &Sh) -> &'a [u8] {
        chk!(s.off + s.size <= f.len() as u64, "section contents are inside the file");
        &f[s.off as usize..(s.off + s.size) as usize]
    }
    /// Parse `f` and compare with `o`.
    pub fn compare(f: &[u8], o: &Object, file: &str) {
        chk!(f.len() >= 64, "ELF header present");
        chk!(f[..16] == [0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], "ELF identification");
        chk!(u16_(f, 16) == 1 && u16_(f, 18) == 62 && u32_(f, 20) == 1, "relocatable, x86-64, version");
        chk!(u64_(f, 24) == 0 && u64_(f, 32) == 0 && u32_(f, 48) == 0 && u16_(f, 54) == 0 && u16_(f, 56) == 0, "no entry point and no program headers");
        chk!(u16_(f, 52) == 64 && u16_(f, 58) == 64, "header sizes");
        let (shoff, shnum, shstr) = (u64_(f, 40), u16_(f, 60), u16_(f, 62));
        chk!(shoff % 8 == 0 && shoff + shnum * 64 == f.len() as u64, "the section header table is the aligned tail of the file");
        chk!(shstr < shnum && shstr > 0, "section name table index");
        let raw = |i: u64| { let h = (shoff + i * 64) as usize; Sh { name: String::new(), ty: u32_(f, h + 4), flags: u64_(f, h + 8), addr: u64_(f, h + 16), off: u64_(f, h + 24), size: u64_(f, h + 32), link: u32_(f, h + 40), info: u32_(f, h + 44), align: u64_(f, h + 48), ent: u64_(f, h + 56) } };
        let mut sh: Vec<Sh> = (0..shnum).map(raw).collect();
        let names = body(f, &sh[shstr as usize].clone()).to_vec();
        for i in 0..shnum { sh[i as usize].name = cstr(&names, u32_(f, (shoff + i * 64) as usize)); }
        chk!(sh[0].ty == 0 && sh[0].size == 0 && sh[0].name.is_empty(), "section 0 is null");
        chk!(sh[shstr as usize].ty == 3 && sh[shstr as usize].name == ".shstrtab", "section names are a string table");
        // contents do not overlap each other or the headers
        let mut spans: Vec<(u64, u64)> = sh.iter().filter(|s| s.ty != 0 && s.ty != 8 && s.size > 0).map(|s| (s.off, s.off + s.size)).collect();
        spans.sort();
        let mut at = 64;
        for (a, b) in spans { chk!(a >= at, "section contents do not overlap"); at = b; }
        chk!(at <= shoff, "section contents end before the header table");
        let find = |n: &str| -> usize { let v: Vec<usize> = sh.iter().enumerate().filter(|(_, s)| s.name == n).map(|(i, _)| i).collect(); chk!(v.len() == 1, "every section appears once"); v[0] };
        let (t, d, r, b) = (find(".text"), find(".data"), find(".rodata"), find(".bss"));
        for (i, want, flags) in [(t, &o.text, 6), (d, &o.data, 3), (r, &o.rodata, 2)] {
            chk!(sh[i].ty == 1 && sh[i].flags == flags, "section type and flags");
            chk!(body(f, &sh[i]) == &want[..], "section contents");
        }
        chk!(sh[b].ty == 8 && sh[b].flags == 3 && sh[b].size == o.bss, "bss size, type and flags");
        for i in [t, d, r, b] { chk!(sh[i].align >= 16 && sh[i].align.is_power_of_two() && sh[i].addr == 0, "section alignment"); }
        let sec_of = |s: LocationSection| match s { LocationSection::Text => t, LocationSection::Data => d, LocationSection::Rodata => r, LocationSection::Bss => b } as u64;
        // symbols
        let st = find(".symtab");
        chk!(sh[st].ty == 2 && sh[st].ent == 24 && sh[st].size % 24 == 0 && sh[st].size > 0, "symbol table shape");
        let strs = sh[sh[st].link as usize].clone();
        chk!(strs.ty == 3, "the symbol table's names are a string table");
        let strs = body(f, &strs).to_vec();
        chk!(strs.first() == Some(&0), "a string table starts with the empty name");
        let syms = body(f, &sh[st]).to_vec();
        chk!(syms[..24].iter().all(|x| *x == 0), "symbol 0 is undefined");
        let nsym = syms.len() as u64 / 24;
        let mut section_syms = std::collections::BTreeMap::new();
        let mut got: Vec<(String, bool, u64, u64)> = vec![];
        let mut by_index = vec![(String::new(), 0u64)];
        for i in 1..nsym {
            let e = (i * 24) as usize;
            let (nm, info, shndx, value) = (cstr(&strs, u32_(&syms, e)), syms[e + 4], u16_(&syms, e + 6), u64_(&syms, e + 8));
            chk!(syms[e + 5] == 0, "default visibility");
            let (bind, ty) = (info >> 4, info & 15);
            chk!(bind <= 1, "local or global binding");
            chk!((bind == 0) == (i < sh[st].info), "local symbols precede global ones");
            chk!(shndx < shnum || shndx == 0xfff1, "a symbol's section exists");
            match ty {
                4 => chk!(bind == 0 && nm == file && shndx == 0xfff1, "the file symbol names the file"),
                3 => { chk!(bind == 0 && value == 0, "section symbol"); section_syms.insert(i, shndx); }
                0 => got.push((nm.clone(), bind == 1, shndx, value)),
                _ => chk!(false, "symbol type"),
            }
            by_index.push((nm, shndx));
        }
        chk!(sh[st].info <= nsym && sh[st].info > 0, "first global index in range");
        let mut want: Vec<(String, bool, u64, u64)> = o.symbols.iter().map(|s| match s.binding {
            Binding::Local(l) => (s.name.clone(), false, sec_of(l.section), l.pos),
            Binding::Global(Some(l)) => (s.name.clone(), true, sec_of(l.section), l.pos),
            Binding::Global(None) => (s.name.clone(), true, 0, 0),
        }).collect();
        want.sort(); got.sort();
        chk!(got == want, "the symbol table holds exactly the object's symbols");
        // relocations
        let mut got: Vec<(LocationSection, u64, u64, i64, Result<String, u64>)> = vec![];
        for (sec, n) in [(LocationSection::Text, ".rela.text"), (LocationSection::Data, ".rela.data"), (LocationSection::Rodata, ".rela.rodata")] {
            let i = find(n);
            chk!(sh[i].ty == 4 && sh[i].ent == 24 && sh[i].size % 24 == 0, "relocation table shape");
            chk!(sh[i].link == st as u64 && sh[i].info == sec_of(sec), "a relocation table names its symbol table and its section");
            let rb = body(f, &sh[i]).to_vec();
            for e in (0..rb.len()).step_by(24) {
                let (off, info, add) = (u64_(&rb, e), u64_(&rb, e + 8), u64_(&rb, e + 16) as i64);
                let sym = info >> 32;
                chk!(sym < nsym, "a relocation's symbol exists");
                let target = match section_syms.get(&sym) { Some(x) => Err(*x), None => Ok(by_index[sym as usize].0.clone()) };
                got.push((sec, off, info & 0xffff_ffff, add, target));
            }
        }
        let mut want: Vec<_> = o.relocs.iter().map(|r| {
            let ty = match r.ty { RelocType::PcRel8 => 15, RelocType::PcRel32 => 2, RelocType::PcRelToAddressTable32 => 9, RelocType::Abs64 => 1 };
            let tg = match &r.target { RelocTarget::Symbol(n) => Ok(n.clone()), RelocTarget::Section(s) => Err(sec_of(*s)) };
            (r.location.section, r.location.pos, ty, r.addend, tg)
        }).collect();
        want.sort(); got.sort();
        chk!(got == want, "the relocation tables hold exactly the object's relocations");
    }
}
#[cfg(not(kani))]
fn to_bytes(file: &str, o: &Object) -> Vec<u8> {
    let mut v = vec![];
    xten::elf::adapter::into_relocatable_object(file, o.clone()).write(&mut v).unwrap();
    v
}
// Objects as the assembler produces them.
kit::obligation!(assembled, native, |s| {
    let (w, m) = whole::build(s, 40, "");
    note(|| format!("{:?}", m.log));
    if let Ok(o) = w.produce() {
        let file = ["a.o", "mod.llrl.o", "λ.o"][s.below(3) as usize];
        read::compare(&to_bytes(file, &o), &o, file);
        reach!("assembled");
    }
});
// Arbitrary objects, written through a file.
kit::obligation!(arbitrary, native, |s| {
    let size = |s: &mut _| -> usize { match Src::below(s, 4) { 0 => 0, 1 => Src::below(s, 40) as usize, 2 => Src::below(s, 5000) as usize, _ => 16 } };
    let mut o = Object { text: vec![], data: vec![], rodata: vec![], bss: s.u64() >> 8, symbols: vec![], relocs: vec![] };
    for k in 0..3 { let n = size(s); let v: Vec<u8> = (0..n).map(|i| (i * 31 + k) as u8).collect(); match k { 0 => o.text = v, 1 => o.data = v, _ => o.rodata = v } }
    let secs = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
    let mut names = vec![];
    let many = |s: &mut S| { let m = if s.below(20) == 0 { 3000 } else { 12 }; s.below(m) };
    for i in 0..many(s) {
        let nm = format!("{}{}", ["s", ".rela.text", "ab", "b", "λ "][s.below(5) as usize], i);
        let loc = Location::new(secs[s.below(4) as usize], s.u64());
        o.symbols.push(Symbol::new(nm.clone(), match s.below(3) { 0 => Binding::Local(loc), 1 => Binding::Global(Some(loc)), _ => Binding::Global(None) }));
        names.push(nm);
    }
    for _ in 0..many(s) {
        let ty = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64][s.below(4) as usize];
        let tg = if names.is_empty() || s.bool() { RelocTarget::Section(secs[s.below(4) as usize]) } else { RelocTarget::Symbol(names[s.below(names.len() as u64) as usize].clone()) };
        o.relocs.push(Reloc::new(Location::new(secs[s.below(3) as usize], s.u64()), tg, s.i64(), ty));
    }
    note(|| format!("{:?}", o));
    let dir = std::env::temp_dir().join(format!("c05-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("obj.o");
    chk!(xten::elf::write_relocatable_object(&p, o.clone()).is_ok(), "an object can be written");
    let f = std::fs::read(&p).unwrap();
    read::compare(&f, &o, "obj.o");
    reach!("arbitrary");
});
// Success is reported only when the whole file was written.
kit::obligation!(full_disk, native, |s| {
    let n = s.below(20000) as usize;
    note(|| format!("text of {} bytes to a full device", n));
    let o = Object { text: vec![1; n], data: vec![], rodata: vec![], bss: 0, symbols: vec![], relocs: vec![] };
    if std::path::Path::new("/dev/full").exists() {
        chk!(xten::elf::write_relocatable_object(std::path::Path::new("/dev/full"), o).is_err(), "a file that could not be written is an error");
        reach!("full");
    }
});

// ------------------------------------------------------------------ proofs
/// Collects sections.
pub struct Got(pub Option<Section>);
impl AddSection<Section> for Got { fn add_section(&mut self, s: Section) -> Shndx { self.0 = Some(s); Shndx::ABS } }
fn le(b: &[u8], o: usize, n: usize) -> u64 { let mut v = 0u64; let mut i = 0; while i < 8 { if i < n { v |= (b[o + i] as u64) << (8 * i); } i += 1; } v }
fn bytes(s: &Section) -> &[u8] { match &s.body { SectionBody::Bytes(b) => b, _ => &[] } }
// Every relocation entry: place, symbol, kind, addend.
kit::obligation!(rela, kani_map, unwind = 10, |s| {
    let (off, add) = (s.u64(), s.i64());
    let (off2, add2) = (s.u64(), s.i64());
    let ty = |s: &mut S| match s.below(4) { 0 => (RelocType::PcRel8, 15), 1 => (RelocType::PcRel32, 2), 2 => (RelocType::PcRelToAddressTable32, 9), _ => (RelocType::Abs64, 1u64) };
    let (t, n) = ty(s);
    let (t2, n2) = ty(s);
    note(|| format!("{:?} at {} addend {}; {:?} at {} addend {}", t, off, add, t2, off2, add2));
    let mut r = ef::Rela::new(String::new(), Shndx::COMMON, Shndx::ABS);
    r.add(ef::RelaEntry::new(off, ef::SymtabIndex::UNDEF, t.into(), add));
    r.add(ef::RelaEntry::new(off2, ef::SymtabIndex::UNDEF, t2.into(), add2));
    let mut g = Got(None);
    g.add_section(r);
    let sec = g.0.as_ref().unwrap();
    chk!(sec.ty == SectionType::Rela && sec.entsize == 24 && sec.link == 0xfff2 && sec.info == 0xfff1 && sec.align == 8, "relocation table header");
    let b = bytes(sec);
    chk!(b.len() == 48, "24 bytes for every relocation");
    chk!(le(b, 0, 8) == off && le(b, 8, 8) == n && le(b, 16, 8) as i64 == add, "a relocation entry records place, kind and addend");
    chk!(le(b, 24, 8) == off2 && le(b, 32, 8) == n2 && le(b, 40, 8) as i64 == add2, "a later entry follows the earlier ones");
    reach!("rela");
    std::mem::forget(g);
});
#[cfg(not(kani))]
pub use headers_util::*;
#[cfg(not(kani))]
pub mod headers_util {
use super::*;
/// Counts what is written and keeps the one field that starts at `at`.
pub struct Count { pub n: u64, pub at: u64, pub val: u64, pub len: usize }
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.write_all(b)?; Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        if self.n == self.at && b.len() <= 8 {
            self.len = b.len();
            self.val = 0;
            let mut i = 0;
            while i < 8 { if i < b.len() { self.val |= (b[i] as u64) << (8 * i); } i += 1; }
        }
        self.n = self.n.wrapping_add(b.len() as u64);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn blank<S: Src>(s: &mut S, max: u64) -> Vec<u8> {
    let n = s.below(max) as usize;
    #[cfg(kani)]
    { let mut v = Vec::with_capacity(n); unsafe { v.set_len(n) }; v }
    #[cfg(not(kani))]
    vec![0; n % 5000]
}
}
// Every field of the file header and of every section header, for all section sizes.
kit::obligation!(headers, native, |s| {
    let (a, b) = (blank(s, 1 << 40), blank(s, 1 << 40));
    let bss = s.u64();
    let (la, lb) = (a.len() as u64, b.len() as u64);
    note(|| format!("sections of {} and {} bytes, bss {}", la, lb, bss));
    let mut e = ef::Elf::new(ef::ObjectType::Rel);
    e.add_section(Section::text(String::new(), a));
    e.add_section(Section::bss(String::new(), bss));
    e.add_section(Section::rodata(String::new(), b));
    // `.shstrtab` and the two reserved zeros
    let names = if cfg!(kani) { 1 } else { 11 };
    let shoff = (64 + la + lb + names + 7) & !7;
    // (offset, width, value) of every field
    let which = s.below(6);
    let f = s.below(10) as usize;
    let sec = |ty: u64, flags: u64, off: u64, size: u64, align: u64| [(0, 4, u64::MAX), (4, 4, ty), (8, 8, flags), (16, 8, 0), (24, 8, off), (32, 8, size), (40, 4, 0), (44, 4, 0), (48, 8, align), (56, 8, 0)];
    let (at, len, want) = match which {
        0 => sec(0, 0, 64, 0, 0)[f],
        1 => sec(1, 6, 64, la, 16)[f],
        2 => sec(8, 3, 64 + la, bss, 16)[f],
        3 => sec(1, 2, 64 + la, lb, 16)[f],
        4 => sec(3, 0, 64 + la + lb, names, 1)[f],
        _ => [(0, 4, 0x464c457f), (16, 2, 1), (18, 2, 62), (40, 8, shoff), (32, 8, 0), (52, 2, 64), (56, 2, 0), (58, 2, 64), (60, 2, 5), (62, 2, 4)][f],
    };
    let mut k = Count { n: 0, at: if which == 5 { at } else { shoff + 64 * which + at }, val: 0, len: 0 };
    let r = e.write(&mut k);
    chk!(r.is_ok() && k.n == shoff + 5 * 64, "the file ends with the section headers");
    chk!(k.len == len && (want == u64::MAX || k.val == want), "every header field holds its value");
    if which == 5 { reach!("file header"); } else { reach!("section header"); }
    std::mem::forget(r);
});

#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C05", c05::assembled, 4, native, "objects of at most 40 operations, 7 labels"),
        kit::entry!("C05", c05::arbitrary, 6, native, "at most 3000 symbols and relocations, sections of at most 5000 bytes"),
        kit::entry!("C05", c05::full_disk, 1, native, "text of at most 20000 bytes"),
        kit::entry!("C05", c05::rela, 1, kani),
        kit::entry!("C05", c05::headers, 1, native, "sections of at most 5000 bytes, any bss size"),
    ]
}
