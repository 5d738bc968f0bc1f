//! C06: data layout of llrl values.
use kit::*;
use llrl::backend::native::mem_layout::*;
use std::sync::Arc;

pub fn class_of<S: Src>(s: &mut S) -> Class { match s.below(4) { 0 => Class::Void, 1 => Class::Integer, 2 => Class::FloatingPoint, _ => Class::Memory } }
pub fn align_of<S: Src>(s: &mut S) -> usize { match s.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 4, 4 => 8, _ => 16 } }
pub fn rank(c: Class) -> u8 { match c { Class::Void => 0, Class::FloatingPoint => 1, Class::Integer => 2, Class::Memory => 3 } }

// The class lattice: Memory > Integer > FloatingPoint > Void.
kit::obligation!(merge, kani, unwind = 2, |s| {
    let (a, b) = (class_of(s), class_of(s));
    note(|| format!("{:?} {:?}", a, b));
    let m = a.merge(b);
    chk!(m == if rank(a) >= rank(b) { a } else { b }, "merging two classes gives the stronger one");
    reach!("merge");
});
// Any layout: size a multiple of the alignment, the smallest such, classes by size.
kit::obligation!(new, kani, unwind = 2, |s| {
    let (size, align, class) = (s.usize() >> 8, align_of(s), class_of(s));
    note(|| format!("Layout::new({}, {}, {:?})", size, align, class));
    let l = Layout::new(size, align, class);
    chk!(l.align == align && l.size >= size && l.size - size < align.max(1), "size is rounded up to the alignment");
    chk!(align == 0 || l.size & (align - 1) == 0, "size is a multiple of the alignment");
    chk!(l.class == if l.size == 0 { Class::Void } else if l.size > 16 { Class::Memory } else { class }, "empty values have no class and values above 16 bytes live in memory");
    chk!(l.composite.is_none(), "a scalar layout has no components");
    let n = l.num_eightbytes();
    chk!(n * 8 >= l.size && n * 8 < l.size + 8, "eightbytes cover the value");
    chk!(l.size_in_stack(false) == n * 8, "stack size is whole eightbytes");
    chk!(l.size_in_stack(true) == if l.class == Class::Memory { n * 8 } else { 0 }, "a value held in registers occupies no stack");
    let st = l.clone().in_stack();
    chk!(st.size == n * 8 && st.align == align && st.class == l.class, "in-stack layout is whole eightbytes");
    reach!("new");
    std::mem::forget((l, st));
});
fn part<S: Src>(s: &mut S) -> Layout {
    // any layout value, not only ones `new` makes: a prefix of any length leaves the fold in the
    // state that one such layout leaves it in
    Layout { size: s.below(1 << 32) as usize, align: align_of(s), class: class_of(s), composite: None }
}
fn up(x: usize, a: usize) -> usize { if a == 0 { x } else { (x + (a - 1)) & !(a - 1) } }
// Products: every field after the previous one, aligned, no gap larger than its alignment needs.
// (`composite` attaches the field table; by contract it does that and nothing else.)
#[cfg(kani)]
fn attach(mut l: Layout, c: CompositeLayout) -> Layout {
    std::mem::forget(std::mem::replace(&mut l.composite, Some(Arc::new(c))));
    l
}
kit::obligation!(product, kani_stub(llrl::backend::native::mem_layout::Layout::composite => attach), unwind = 3, |s| {
    let fs = [part(s), part(s)];
    let (a, b) = (&fs[0], &fs[1]);
    note(|| format!("product of {:?} and {:?}", a, b));
    let p = std::mem::ManuallyDrop::new(Layout::product(&fs[..]));
    let c = p.composite.as_ref().unwrap();
    chk!(c.elems.len() == 2 && c.components.len() == 2, "every field has an offset");
    chk!(c.elems[0].0 == 0 && c.elems[0].1.size == a.size && c.components[0].0 == 0, "the first field is at offset 0");
    let o = c.elems[1].0;
    chk!(o == up(a.size, b.align), "a field is at the first aligned offset after the previous one");
    chk!(c.elems[1].1.size == b.size && c.components[1].0 == o && c.components[1].1.class == b.class, "a component is where its field is");
    let end = o + b.size;
    let al = a.align.max(b.align);
    let cl = if rank(b.class) > rank(a.class) { b.class } else { a.class };
    chk!(p.align == al, "alignment is the largest of the fields'");
    chk!(p.size == up(end, al), "size covers the fields, rounded up to the alignment");
    chk!(p.class == if p.size == 0 { Class::Void } else if p.size > 16 { Class::Memory } else { cl }, "class is the strongest of the fields', or memory above 16 bytes");
    reach!("two");
    std::mem::forget(fs);
});
kit::obligation!(sum, kani, unwind = 4, |s| {
    let (a, b) = (part(s), part(s));
    note(|| format!("sum of {:?} and {:?}", a, b));
    let fs = [a, b];
    let p = Layout::sum(&fs[..]);
    let (al, sz) = (fs[0].align.max(fs[1].align), fs[0].size.max(fs[1].size));
    chk!(p.align == al && p.size == up(sz, al), "a sum is as large and as aligned as its largest part");
    let m = fs[0].class == Class::Memory || fs[1].class == Class::Memory;
    chk!(p.class == if p.size == 0 { Class::Void } else if p.size > 16 || m { Class::Memory } else { Class::Integer }, "a sum is classified as an integer or memory");
    chk!(p.composite.is_none(), "the parts of a sum are not visible");
    reach!("sum");
    std::mem::forget(fs);
    std::mem::forget(p);
});

// Whole type graphs, against the C compiler's rules computed independently.
#[cfg(not(kani))]
pub mod whole {
    use super::*;
    use llrl::lowering::ir::*;
    use std::collections::HashMap;
    #[derive(Debug, Clone)]
    pub enum M { Leaf(usize, usize, Class), Prod(Vec<M>), Sum(Vec<M>) }
    /// size, align, class by the System V rules for structs, and the leaves with their offsets.
    pub fn model(m: &M) -> (usize, usize, Class, Vec<(usize, usize, Class)>) {
        match m {
            M::Leaf(s, a, c) => (*s, *a, *c, vec![(0, *s, *c)]),
            M::Prod(fs) => {
                let (mut o, mut al, mut cl, mut lv) = (0usize, 0usize, Class::Void, vec![]);
                for f in fs {
                    let (s, a, c, l) = model(f);
                    o = if a == 0 { o } else { o.div_ceil(a) * a };
                    for (p, s, c) in l { lv.push((o + p, s, c)); }
                    o += s;
                    al = al.max(a);
                    if rank(c) > rank(cl) { cl = c }
                }
                let s = if al == 0 { o } else { o.div_ceil(al) * al };
                (s, al, if s == 0 { Class::Void } else if s > 16 { Class::Memory } else { cl }, lv)
            }
            M::Sum(fs) => {
                let (mut sz, mut al, mut mem) = (0, 0, false);
                for f in fs { let (s, a, c, _) = model(f); sz = sz.max(s); al = al.max(a); mem |= c == Class::Memory; }
                let s = if al == 0 { sz } else { sz.div_ceil(al) * al };
                let c = if s == 0 { Class::Void } else if s > 16 || mem { Class::Memory } else { Class::Integer };
                (s, al, c, vec![(0, s, c)])
            }
        }
    }
    pub fn scalar<S: Src>(s: &mut S) -> (Ct, M) {
        let w = |b: usize| { let n = b.div_ceil(8).next_power_of_two(); M::Leaf(n, n, Class::Integer) };
        match s.below(16) {
            0 => { let b = 1 + s.below(64) as usize; (Ct::S(b), w(b)) }
            1 => { let b = 1 + s.below(64) as usize; (Ct::U(b), w(b)) }
            2 => (Ct::F32, M::Leaf(4, 4, Class::FloatingPoint)),
            3 => (Ct::F64, M::Leaf(8, 8, Class::FloatingPoint)),
            4 => (Ct::ptr(Ct::F64), M::Leaf(8, 8, Class::Integer)),
            5 => (Ct::clos(vec![], Ct::F64), M::Leaf(16, 8, Class::Integer)),
            6 => (Ct::String, M::Leaf(16, 8, Class::Integer)),
            7 => (Ct::array(Ct::F32), M::Leaf(16, 8, Class::Integer)),
            8 => (Ct::Char, M::Leaf(4, 4, Class::Integer)),
            9 => (Ct::Unit, M::Leaf(0, 0, Class::Void)),
            10 => (Ct::Env, M::Leaf(8, 8, Class::Integer)),
            11 => (Ct::syntax(Ct::F32), M::Leaf(8, 8, Class::Integer)),
            12 => (Ct::S(8), w(8)), 13 => (Ct::S(16), w(16)), 14 => (Ct::S(32), w(32)), _ => (Ct::S(64), w(64)),
        }
    }
    pub fn graph<S: Src>(s: &mut S, max_defs: u64) -> (HashMap<CtId, Arc<Def>>, Vec<(Ct, M)>) {
        let mut gen = CtIdGen::new();
        let n = 1 + s.below(max_defs);
        let mut known: Vec<(Ct, M)> = vec![];
        let mut defs = HashMap::new();
        for _ in 0..n {
            let id = gen.next();
            let k = s.below(5);
            let fs: Vec<(Ct, M)> = (0..k).map(|_| if !known.is_empty() && s.below(3) == 0 { known[s.below(known.len() as u64) as usize].clone() } else { scalar(s) }).collect();
            let (tys, ms): (Vec<Ct>, Vec<M>) = fs.into_iter().unzip();
            if s.below(3) == 0 {
                defs.insert(id, Arc::new(Def::Union(Union::new(tys))));
                known.push((Ct::Id(id), M::Sum(ms)));
            } else {
                defs.insert(id, Arc::new(Def::Struct(Struct::new(StructRepr::Standard, tys))));
                known.push((Ct::Id(id), M::Prod(ms)));
            }
        }
        (defs, known)
    }
}
kit::obligation!(graphs, native, |s| {
    use whole::*;
    let (defs, known) = graph(s, 6);
    note(|| format!("{:?}", known));
    let mut r = LayoutResolver::new();
    r.register(&defs);
    for (ct, m) in &known {
        let (size, align, class, leaves) = model(m);
        let l = r.get(ct);
        chk!(l.size == size && l.align == align && l.class == class, "size, alignment and class of a data type");
        if let M::Prod(fs) = m {
            let c = l.composite.as_ref().unwrap();
            let mut o = 0usize;
            chk!(c.elems.len() == fs.len(), "every field has an offset");
            for (f, e) in fs.iter().zip(&c.elems) {
                let (fsz, fa, fc, _) = model(f);
                o = if fa == 0 { o } else { o.div_ceil(fa) * fa };
                chk!(e.0 == o && e.1.size == fsz && e.1.class == fc, "every field is at its offset");
                o += fsz;
            }
        }
        // every eightbyte: the strongest class among the leaves that touch it
        let ebs: Vec<Eightbyte> = l.eightbytes().collect();
        chk!(ebs.len() == size.div_ceil(8), "eightbytes cover the value");
        for (i, e) in ebs.iter().enumerate() {
            chk!(e.offset == 8 * i && e.size == (size - 8 * i).min(8), "an eightbyte covers eight bytes or the rest");
            let mut c = Class::Void;
            for (o, sz, lc) in &leaves { if *o < 8 * i + 8 && o + sz > 8 * i && rank(*lc) > rank(c) { c = *lc } }
            let whole = matches!(m, M::Sum(_)) || matches!(m, M::Leaf(..));
            chk!(e.class == if whole { class } else { c }, "an eightbyte has the strongest class of what it contains");
        }
        reach!("graph");
    }
});
kit::obligation!(scalars, native, |s| {
    let (ct, m) = whole::scalar(s);
    note(|| format!("{:?}", ct));
    let l = LayoutResolver::new().get(&ct);
    let (size, align, class, _) = whole::model(&m);
    chk!(l.size == size && l.align == align && l.class == class, "size, alignment and class of a scalar");
    reach!("scalar");
});
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C06", c06::merge, 1, kani), kit::entry!("C06", c06::new, 1, kani), kit::entry!("C06", c06::product, 1, kani), kit::entry!("C06", c06::sum, 1, kani),
        kit::entry!("C06", c06::graphs, 6, native, "at most 6 data types of at most 4 fields"), kit::entry!("C06", c06::scalars, 1, native, "every scalar type"),
    ]
}
