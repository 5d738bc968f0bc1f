//! C04: JIT linking patches every relocation with the right value or reports an error.
use kit::*;
use xten::asm::*;
use xten::jit::*;

#[cfg(not(kani))]
pub mod h {
    use super::*;
    pub struct Loaded { pub sec: [Vec<u8>; 3], pub bss: Vec<u8>, pub base: [u64; 4] }
    pub fn idx(s: LocationSection) -> usize { match s { LocationSection::Text => 0, LocationSection::Data => 1, LocationSection::Rodata => 2, LocationSection::Bss => 3 } }
    pub unsafe fn mem(a: u64, n: usize) -> Vec<u8> { if n == 0 { return vec![] } std::slice::from_raw_parts(a as *const u8, n).to_vec() }
    pub fn all_there(all: &[Loaded], what: &str) {
        for (i, l) in all.iter().enumerate() {
            for k in 0..3 {
                let got = unsafe { mem(l.base[k], l.sec[k].len()) };
                if got != l.sec[k] {
                    note(|| format!("object {} section {} differs {}", i, k, what));
                    chk!(false, "loaded sections hold their bytes with every relocation applied, and nothing else changes");
                }
            }
            chk!(unsafe { mem(l.base[3], l.bss.len()) } == l.bss, "bss holds what the program stored in it");
        }
    }
}

kit::obligation!(link, native, |s| {
    use h::*;
    let far = 0x7fff_1234_5000u64;
    let near = 0x4100_0000u64;
    let mut eng = Engine::new(|n: &str| -> *const u8 { match n { "resolved" => 0x4200_0008u64 as *const u8, _ => std::ptr::null() } });
    chk!(eng.register("far", far as *const u8).is_ok(), "registering a fresh symbol");
    chk!(eng.register("near", near as *const u8).is_ok(), "registering a fresh symbol");
    let nobj = 1 + s.below(4);
    let mut all: Vec<Loaded> = vec![];
    // global symbols known so far
    let mut globals: Vec<(String, u64)> = vec![("far".into(), far), ("near".into(), near)];
    let mut log = vec![];
    for oi in 0..nobj {
        let size = |s: &mut _| -> usize { match Src::below(s, 6) { 0 => 0, 1 => Src::below(s, 40) as usize, 2 => 4096, 3 => 4000 + Src::below(s, 200) as usize, 4 => 9000, _ => 16 + Src::below(s, 64) as usize } };
        let (tn, dn, rn, bn) = (16 + size(s), size(s), size(s), size(s));
        let fill = |n: usize, k: u8| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(7) ^ k ^ (oi as u8) << 4).collect() };
        let mut o = Object { text: fill(tn, 0x11), data: fill(dn, 0x22), rodata: fill(rn, 0x33), bss: bn as u64, symbols: vec![], relocs: vec![] };
        let lens = [tn, dn, rn, bn];
        let secs = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
        // section starts are exported so that the test can find them
        for k in 0..4 { o.symbols.push(Symbol::new(format!("o{}s{}", oi, k), Binding::Global(Some(Location::new(secs[k], 0))))); }
        // local symbols: the same names in every object
        let mut locals = vec![];
        for li in 0..s.below(4) {
            let k = s.below(4) as usize;
            let p = s.below(lens[k] as u64 + 1);
            let nm = if li == 3 { "near".to_string() } else { format!("loc{}", li) };
            o.symbols.push(Symbol::new(nm.clone(), Binding::Local(Location::new(secs[k], p))));
            locals.push((nm, k, p));
        }
        let mut globs_new = vec![];
        for gi in 0..s.below(3) {
            let k = s.below(4) as usize;
            let p = s.below(lens[k] as u64 + 1);
            // sometimes the same name as a local of an earlier object
            let nm = if s.below(4) == 0 { format!("loc{}", gi) } else { format!("g{}_{}", oi, gi) };
            if locals.iter().any(|l| l.0 == nm) || globals.iter().any(|g| g.0 == nm) { continue }
            o.symbols.push(Symbol::new(nm.clone(), Binding::Global(Some(Location::new(secs[k], p)))));
            globs_new.push((nm, k, p));
        }
        let resolved = s.below(3) == 0;
        if resolved { o.symbols.push(Symbol::new("resolved".to_string(), Binding::Global(None))); }
        if s.bool() { o.symbols.push(Symbol::new("far".to_string(), Binding::Global(None))); }
        // relocations in disjoint 16-byte slots of text, data and rodata
        struct R { sec: usize, pos: usize, ty: RelocType, addend: i64, target: RelocTarget }
        let mut rs: Vec<R> = vec![];
        let mut used = std::collections::BTreeSet::new();
        let mut undefined = false;
        for _ in 0..s.below(7) {
            let k = s.below(3) as usize;
            if lens[k] < 16 { continue }
            let slot = s.below((lens[k] / 16) as u64);
            if !used.insert((k, slot)) { continue }
            let ty = match s.below(5) { 0 => RelocType::PcRel8, 1 | 2 => RelocType::PcRel32, 3 => RelocType::PcRelToAddressTable32, _ => RelocType::Abs64 };
            let pos = slot as usize * 16 + s.below(9) as usize;
            let addend = match s.below(4) { 0 => 0, 1 => -4, 2 => s.i8() as i64, _ => s.i32() as i64 };
            let target = match s.below(8) {
                0 | 1 if ty != RelocType::PcRelToAddressTable32 => RelocTarget::Section(secs[s.below(4) as usize]),
                2 | 3 if !locals.is_empty() => RelocTarget::Symbol(locals[s.below(locals.len() as u64) as usize].0.clone()),
                4 if !globs_new.is_empty() => RelocTarget::Symbol(globs_new[s.below(globs_new.len() as u64) as usize].0.clone()),
                5 if s.below(8) == 0 => { undefined = true; RelocTarget::Symbol("missing".into()) }
                6 if resolved => RelocTarget::Symbol("resolved".into()),
                _ => RelocTarget::Symbol(globals[s.below(globals.len() as u64) as usize].0.clone()),
            };
            o.relocs.push(Reloc::new(Location::new(secs[k], pos as u64), target.clone(), addend, ty));
            rs.push(R { sec: k, pos, ty, addend, target });
        }
        let undef_decl = s.below(30) == 0;
        if undef_decl { o.symbols.push(Symbol::new("nowhere".to_string(), Binding::Global(None))); }
        let dup = s.below(30) == 0 && oi > 0;
        if dup { o.symbols.push(Symbol::new("o0s0".to_string(), Binding::Global(Some(Location::new(secs[0], 0))))); }
        log.push(format!("object {}: sizes {:?} symbols {:?} relocs {:?}", oi, lens, o.symbols.iter().map(|s| (&s.name, s.binding)).collect::<Vec<_>>(), o.relocs));
        note(|| log.join(" ; "));
        let before = o.clone();
        let res = eng.add_object(&o);
        if let Err(Error::Mmap(_)) = res { reach!("no memory"); return }
        chk!(o.text == before.text && o.data == before.data && o.rodata == before.rodata, "the object itself is not modified");
        if dup || undef_decl {
            chk!(res.is_err(), "an undefined or duplicate symbol is an error");
            reach!("bind_error");
            return;
        }
        let base: Vec<u64> = (0..4).map(|k| eng.get(&format!("o{}s{}", oi, k)).map(|p| p as u64).unwrap_or(0)).collect();
        chk!(res.is_err() || base[0] != 0, "a defined global symbol has an address");
        let base = [base[0], base[1], base[2], base[3]];
        let addr = |t: &RelocTarget| -> Option<u64> { match t {
            RelocTarget::Section(x) => Some(base[idx(*x)]),
            RelocTarget::Symbol(n) => locals.iter().find(|l| &l.0 == n).map(|l| base[l.1] + l.2)
                .or_else(|| globs_new.iter().find(|l| &l.0 == n).map(|l| base[l.1] + l.2))
                .or_else(|| globals.iter().find(|g| &g.0 == n).map(|g| g.1))
                .or_else(|| if n == "resolved" && resolved { Some(0x4200_0008) } else { None }),
        } };
        // every value must fit its field, otherwise the load must fail
        let mut misfit = false;
        let mut want = [o.text.clone(), o.data.clone(), o.rodata.clone()];
        for r in &rs {
            let place = base[r.sec] + r.pos as u64;
            let Some(t) = addr(&r.target) else { continue };
            let rel = (t as i64).wrapping_add(r.addend).wrapping_sub(place as i64);
            match r.ty {
                RelocType::PcRel8 => { if rel < -128 || rel > 127 { misfit = true } else { want[r.sec][r.pos] = rel as i8 as u8 } }
                RelocType::PcRel32 => { if rel < i32::MIN as i64 || rel > i32::MAX as i64 { misfit = true } else { want[r.sec][r.pos..r.pos + 4].copy_from_slice(&(rel as i32).to_le_bytes()) } }
                RelocType::Abs64 => want[r.sec][r.pos..r.pos + 8].copy_from_slice(&((t as i64).wrapping_add(r.addend)).to_le_bytes()),
                RelocType::PcRelToAddressTable32 => {}
            }
        }
        if undefined { chk!(res.is_err(), "a relocation against an undefined symbol is an error"); reach!("undefined"); return; }
        if misfit { chk!(res.is_err(), "a value that does not fit its field is an error"); reach!("misfit"); return; }
        if res.is_err() {
            // the only other reason: an address-table slot out of reach of a huge addend
            let big = rs.iter().any(|r| r.ty == RelocType::PcRelToAddressTable32 && (r.addend > 1 << 28 || r.addend < -(1 << 28)));
            chk!(big, "an object with in-range relocations loads");
            return;
        }
        for r in &rs {
            if r.ty == RelocType::PcRelToAddressTable32 {
                let place = base[r.sec] + r.pos as u64;
                let f = unsafe { mem(place, 4) };
                let v = i32::from_le_bytes([f[0], f[1], f[2], f[3]]) as i64;
                let slot = (place as i64 + v - r.addend) as u64;
                let val = u64::from_le_bytes(unsafe { mem(slot, 8) }.try_into().unwrap());
                chk!(Some(val) == addr(&r.target), "an address-table slot holds the address of its symbol");
                want[r.sec][r.pos..r.pos + 4].copy_from_slice(&f);
                reach!("table");
            }
        }
        for (n, k, p) in &globs_new {
            chk!(eng.get(n).map(|x| x as u64) == Some(base[*k] + p), "a global symbol is at its section offset");
            globals.push((n.clone(), base[*k] + p));
        }
        for (n, _, _) in &locals { if !globals.iter().any(|g| &g.0 == n) { chk!(eng.get(n).is_none(), "a local symbol is not visible outside its object"); } }
        let zero = vec![0u8; bn];
        if bn > 0 { chk!(unsafe { mem(base[3], bn) } == zero, "bss starts out zero"); }
        let [a, b, c] = want;
        all.push(Loaded { sec: [a, b, c], bss: zero, base });
        all_there(&all, &log.join(" ; "));
        // the program stores into its writable sections; later loads must not disturb that
        let l = all.last_mut().unwrap();
        for i in 0..dn { unsafe { *((l.base[1] + i as u64) as *mut u8) = 0xa0 + oi as u8; } l.sec[1][i] = 0xa0 + oi as u8; }
        for i in 0..bn { unsafe { *((l.base[3] + i as u64) as *mut u8) = 0xb0 + oi as u8; } l.bss[i] = 0xb0 + oi as u8; }
        all_there(&all, "after stores");
        reach!("loaded");
    }
});
// Memory handed out for sections never overlaps and keeps its protection.
kit::obligation!(segments, native, |s| {
    use xten::jit::mmap::Protect;
    use xten::jit::segment::Segment;
    let prot = match s.below(3) { 0 => Protect::ReadOnly, 1 => Protect::ReadWrite, _ => Protect::ReadExec };
    let mut seg = Segment::new(prot, s.bool());
    let mut parts: Vec<(u64, u64)> = vec![];
    for _ in 0..1 + s.below(8) {
        let n = match s.below(4) { 0 => s.below(4096) as usize, 1 => 4096, 2 => s.below(20000) as usize, _ => s.below(64) as usize };
        // the system may be out of memory
        let mut p = match seg.allocate(n) { Ok(p) => p, Err(_) => { reach!("no memory"); return } };
        chk!(p.size() == n, "a part has the requested size");
        chk!(p.segment_protect() == prot, "a part has the protection of its segment");
        p.set_protect_temporarily(Protect::ReadWrite).unwrap();
        let a = p.as_ptr() as u64;
        note(|| format!("{:?} part {:#x}+{} among {:x?}", prot, a, n, parts));
        if n > 0 {
            for &(b, m) in &parts { chk!(a + n as u64 <= b || b + m <= a, "parts never overlap"); }
            for i in 0..n { unsafe { *((a + i as u64) as *mut u8) = parts.len() as u8; } }
            parts.push((a, n as u64));
        }
        drop(p);
        for (i, &(b, m)) in parts.iter().enumerate() { for j in 0..m { chk!(unsafe { *((b + j) as *const u8) } == i as u8, "parts keep their contents"); } }
    }
    reach!("segments");
});


// ------------------------------------------------------------------ proofs
// Under the verifier mmap/mprotect/munmap are kani_mm.c: fresh non-overlapping page-aligned
// ranges at arbitrary distances inside one address range.
fn part<S: Src>(s: &mut S) -> usize { let n = s.usize(); s.assume(n < 1 << 30); n }
// Any two consecutive allocations.  The state of a segment is (size of the last chunk, offset in
// it), and one allocation from the empty segment reaches every such state, so this is the
// inductive step for every history.
kit::obligation!(disjoint, kani, unwind = 3, |s| {
    use xten::jit::mmap::Protect;
    use xten::jit::segment::Segment;
    let a = part(s);
    let b = part(s);
    #[cfg(not(kani))]
    s.assume(a < 1 << 16 && b < 1 << 16);
    note(|| format!("allocate {} then {}", a, b));
    #[cfg(kani)]
    let mut seg = std::mem::ManuallyDrop::new(Segment::new(Protect::ReadWrite, true));
    #[cfg(not(kani))]
    let mut seg = Segment::new(Protect::ReadWrite, true);
    let (pa, na) = match seg.allocate(a) { Ok(p) => (p.as_ptr(), p.size()), Err(_) => return };
    if a > 0 { unsafe { *pa = 1; *pa.add(a - 1) = 1; } }
    let (pb, nb) = match seg.allocate(b) { Ok(p) => (p.as_ptr(), p.size()), Err(_) => return };
    chk!(na == a && nb == b, "a part has the requested size");
    if b > 0 { unsafe { *pb = 2; *pb.add(b - 1) = 2; } }
    if a > 0 && b > 0 {
        let (x, y) = (pa as usize, pb as usize);
        chk!(x + a <= y || y + b <= x, "parts never overlap");
        chk!(unsafe { *pa == 1 && *pa.add(a - 1) == 1 }, "a later part leaves an earlier one alone");
        reach!("two parts");
        if y == x + a { reach!("same chunk"); } else { reach!("new chunk"); }
    }
});
// One relocation of every kind, between sections lying anywhere in an address range: the field
// receives S + A (- P) or an error is reported, and nothing else is written.
#[cfg(kani)]
fn arena(n: usize) -> *mut u8 { unsafe { libc::malloc(n) as *mut u8 } }
#[cfg(not(kani))]
fn arena(n: usize) -> *mut u8 {
    thread_local! { static A: u64 = unsafe { libc::mmap(std::ptr::null_mut(), 1 << 35, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as u64 }; }
    assert!(n <= 1 << 35);
    A.with(|a| { assert!(*a as i64 > 0); *a as *mut u8 })
}
#[cfg(llrl_verif)]
kit::obligation!(relocate, kani_map, unwind = 10, |s| {
    let size = s.usize();
    s.assume(size >= 64 && size <= 1 << 34);
    let secs = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
    let ty = match s.below(3) { 0 => RelocType::PcRel8, 1 => RelocType::PcRel32, _ => RelocType::Abs64 };
    let w = match ty { RelocType::PcRel8 => 1, RelocType::PcRel32 => 4, _ => 8usize };
    let at = [s.below(size as u64) as usize, s.below(size as u64) as usize, s.below(size as u64) as usize, s.below(size as u64) as usize];
    let (k, t) = (s.below(4) as usize, s.below(4) as usize);
    let pos = s.usize();
    let end = s.usize();
    s.assume(pos < size && at[k] + pos <= size - w && end <= size);
    let place = at[k] + pos;
    let addend = end as i64 - at[t] as i64; // S + A is `end` (inside the range, where pointer differences are defined)
    let q = s.usize(); // any other byte
    s.assume(q < size && (q < place || q >= place + w));
    note(|| format!("{:?} sections at {:x?}: field {:x} of {}, target section {} + {}", ty, at, place, k, t, addend));
    let base = arena(size);
    if base.is_null() { return }
    unsafe {
        *base.add(q) = 0x5a;
        for i in 0..w { *base.add(place + i) = 0xc3; }
        let o = |i: usize| base.wrapping_add(at[i]);
        let r = Reloc::new(Location::new(secs[k], pos as u64), RelocTarget::Section(secs[t]), addend, ty);
        let res = xten::jit::verif::relocate([o(0), o(1), o(2), o(3)], &r);
        let rel = end as i64 - place as i64;
        let (fits, want) = match ty {
            RelocType::PcRel8 => (rel >= -128 && rel <= 127, rel as u64),
            RelocType::PcRel32 => (rel >= i32::MIN as i64 && rel <= i32::MAX as i64, rel as u64),
            _ => (true, base as u64 + end as u64),
        };
        chk!(*base.add(q) == 0x5a, "a relocation writes nothing but its field");
        if fits {
            chk!(res.is_ok(), "a value that fits its field is accepted");
            let mut got = 0u64;
            for i in 0..8 { if i < w { got |= (*base.add(place + i) as u64) << (8 * i); } }
            let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
            chk!(got == want & mask, "the field receives S + A (- P)");
            if w == 8 { reach!("absolute"); } else { reach!("relative"); }
        } else {
            chk!(res.is_err(), "a value that does not fit its field is an error");
            let mut same = true;
            for i in 0..4 { if i < w { same &= *base.add(place + i) == 0xc3; } }
            chk!(same, "a refused relocation leaves the field alone");
            reach!("refused");
        }
        std::mem::forget(res);
        std::mem::forget(r);
        #[cfg(kani)]
        libc::free(base as *mut _);
    }
});
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C04", c04::link, 8, native, "up to 4 objects, sections up to 9000 bytes, 7 relocations each"),
        kit::entry!("C04", c04::disjoint, 1, kani),
        #[cfg(llrl_verif)]
        kit::entry!("C04", c04::relocate, 1, kani),
        kit::entry!("C04", c04::segments, 2, native, "up to 9 parts of at most 20000 bytes"),
    ]
}
