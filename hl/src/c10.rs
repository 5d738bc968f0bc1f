//! C10: lowering keeps the meaning of a program.
//!
//! Random programs of the intermediate representation (pattern matching, data types, local
//! functions, closures), further disguised with aliases, type parameters and instance tables, go
//! through the real `Context::populate`; the reference meaning before and after is compared.
#![cfg(not(kani))]
use crate::irgen::*;
use kit::*;
use llrl::lowering::ir::rewriter::{Rewrite, Rewriter};
use llrl::lowering::ir::traverser::{Traverse, Traverser};
use llrl::lowering::ir::*;
use llrl::lowering::verif::*;
use llrl::module::{Module, ModuleId};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

// ---------------------------------------------------------------- disguises
struct Cts(BTreeSet<Ct>);
impl Traverser for Cts {
    type Error = ();
    fn after_ct(&mut self, ct: &Ct) -> Result<(), ()> { self.0.insert(ct.clone()); Ok(()) }
}
fn cts(x: &impl Traverse) -> Vec<Ct> { let mut c = Cts(BTreeSet::new()); let _ = x.traverse(&mut c); c.0.into_iter().collect() }
struct Swap { x: Ct, by: Ct, n: usize }
impl Rewriter for Swap {
    type Error = ();
    fn before_ct(&mut self, ct: &mut Ct) -> Result<bool, ()> {
        if *ct == self.x { *ct = self.by.clone(); self.n += 1; return Ok(false) }
        Ok(true)
    }
}
fn swap(t: &mut impl Rewrite, x: &Ct, by: &Ct) -> usize { let mut s = Swap { x: x.clone(), by: by.clone(), n: 0 }; let _ = s.rewrite(t); s.n }
/// Only the place of a captured function, not types.
struct SwapFun { x: CtId, by: Ct }
impl Rewriter for SwapFun {
    type Error = ();
    fn after_rt(&mut self, rt: &mut Rt) -> Result<(), ()> {
        if let Rt::StaticFun(c) = rt { swap(&mut c.fun, &Ct::Id(self.x), &self.by); }
        Ok(())
    }
}
struct Locals<'a> { x: Ct, p: CtId, pick: &'a mut dyn FnMut() -> bool, done: Option<RtId> }
impl Rewriter for Locals<'_> {
    type Error = ();
    fn after_rt(&mut self, rt: &mut Rt) -> Result<(), ()> {
        if let (Rt::LetLocalFun(l), None) = (rt, self.done) {
            for f in &mut l.0 {
                if self.done.is_some() || !(self.pick)() { continue }
                f.ct_params.push(self.p);
                let p = Ct::Id(self.p);
                for q in &mut f.params { swap(&mut q.ty, &self.x, &p); }
                swap(&mut f.ret, &self.x, &p);
                swap(&mut f.body, &self.x, &p);
                // recursive uses stay at the parameter
                let _ = rewriter::rewrite(&mut f.body, &mut LocalUse { f: f.id, arg: p });
                self.done = Some(f.id);
            }
        }
        Ok(())
    }
}
struct LocalUse { f: RtId, arg: Ct }
impl Rewriter for LocalUse {
    type Error = ();
    fn after_rt(&mut self, rt: &mut Rt) -> Result<(), ()> {
        if let Rt::LocalFun(i) = rt { if i.fun == self.f { i.args.push(self.arg.clone()) } }
        Ok(())
    }
}
/// Uses outside the function itself: those that are not instantiated yet.
struct LocalUseOutside { f: RtId, n: usize, arg: Ct }
impl Rewriter for LocalUseOutside {
    type Error = ();
    fn after_rt(&mut self, rt: &mut Rt) -> Result<(), ()> {
        if let Rt::LocalFun(i) = rt { if i.fun == self.f && i.args.len() == self.n { i.args.push(self.arg.clone()) } }
        Ok(())
    }
}
struct CountParams { f: RtId, n: usize }
impl Traverser for CountParams {
    type Error = ();
    fn before_rt(&mut self, rt: &Rt) -> Result<bool, ()> {
        if let Rt::LetLocalFun(l) = rt { for f in &l.0 { if f.id == self.f { self.n = f.ct_params.len() } } }
        Ok(true)
    }
}
pub struct Prog { pub defs: BTreeMap<CtId, Def>, pub inits: Vec<Init>, generic: BTreeSet<CtId> }
impl Prog {
    /// Whether a function is behind a type.
    fn fun(&self, c: &Ct) -> bool { self.behind(c, &mut BTreeSet::new(), &|_, d| match d { Some(Def::Function(_)) => true, Some(Def::Generic(_, d)) => matches!(**d, Def::Function(_)), _ => false }) }
    fn behind(&self, c: &Ct, seen: &mut BTreeSet<CtId>, f: &dyn Fn(CtId, Option<&Def>) -> bool) -> bool {
        cts(c).iter().any(|c| if let Ct::Id(i) = c {
            let d = self.defs.get(i);
            f(*i, d) || matches!(d, Some(Def::Alias(_) | Def::AliasTable(_) | Def::Generic(..))) && seen.insert(*i) && cts(d.unwrap()).iter().any(|c| self.behind(c, seen, f))
        } else { false })
    }
    fn swap_all(&mut self, x: &Ct, by: &Ct) { for d in self.defs.values_mut() { swap(d, x, by); } swap(&mut self.inits, x, by); }
    fn disguise<S: Src>(&mut self, s: &mut S, w: &mut World) {
        let ids: Vec<CtId> = self.defs.keys().copied().collect();
        let pick = |s: &mut S, v: &[Ct]| if v.is_empty() { None } else { Some(v[s.below(v.len() as u64) as usize].clone()) };
        match s.below(6) {
            // a name for a type, or an entry of a table
            k @ (0 | 1) => {
                let at = s.below(ids.len() as u64 + 1) as usize;
                let found = if at < ids.len() { cts(&self.defs[&ids[at]]) } else { cts(&self.inits) };
                let Some(x) = pick(s, &found) else { return };
                let id = w.ct.next();
                let by = if k == 0 {
                    self.defs.insert(id, Def::Alias(x.clone()));
                    Ct::Id(id)
                } else if s.bool() {
                    let (key, mut t) = (w.ct.next(), AliasTable::new());
                    t.insert(key, x.clone());
                    t.insert(w.ct.next(), Ct::Unit);
                    self.defs.insert(id, Def::AliasTable(t));
                    Ct::table_get(Ct::Id(id), key)
                } else {
                    let (key, p, mut t) = (w.ct.next(), w.ct.next(), AliasTable::new());
                    t.insert(w.ct.next(), Ct::F64);
                    t.insert(key, Ct::Id(p));
                    self.defs.insert(id, Def::generic(vec![p], Def::AliasTable(t)));
                    Ct::table_get(Ct::generic_inst(Ct::Id(id), vec![x.clone()]), key)
                };
                if at < ids.len() {
                    if let Def::Generic(ps, _) = &self.defs[&ids[at]] { if ps.iter().any(|p| cts(&self.defs[&id]).contains(&Ct::Id(*p))) { self.defs.remove(&id); return } }
                    swap(self.defs.get_mut(&ids[at]).unwrap(), &x, &by);
                } else { swap(&mut self.inits, &x, &by); }
            }
            // a type parameter of a function or of a data type
            2 | 3 => {
                if ids.is_empty() { return }
                let id = ids[s.below(ids.len() as u64) as usize];
                if self.generic.contains(&id) { return }
                let def = self.defs[&id].clone();
                let fun = matches!(def, Def::Function(_));
                if !fun && !matches!(def, Def::Data(_) | Def::Struct(_) | Def::Union(_)) { return }
                let found: Vec<Ct> = cts(&def).into_iter().filter(|c| !self.behind(c, &mut BTreeSet::new(), &|i, _| i == id) && !self.fun(c)).collect();
                let Some(x) = pick(s, &found) else { return };
                let p = w.ct.next();
                let mut def = def;
                swap(&mut def, &x, &Ct::Id(p));
                let mut ps = vec![p];
                if s.below(3) == 0 { ps.insert(s.below(2) as usize, w.ct.next()) }
                let args = |ps: &[CtId], own: Ct| -> Vec<Ct> { ps.iter().map(|q| if *q == p { own.clone() } else { Ct::F32 }).collect() };
                self.generic.insert(id);
                let inst = Ct::generic_inst(Ct::Id(id), args(&ps, x.clone()));
                if fun {
                    let _ = rewriter::rewrite(&mut def, &mut SwapFun { x: id, by: Ct::generic_inst(Ct::Id(id), args(&ps, Ct::Id(p))) });
                    self.defs.insert(id, Def::generic(ps, def));
                    for (k, d) in self.defs.iter_mut() { if *k != id { let _ = rewriter::rewrite(d, &mut SwapFun { x: id, by: inst.clone() }); } }
                    for d in self.defs.values_mut() { if !matches!(d, Def::Function(_)) && !matches!(d, Def::Generic(_, d) if matches!(**d, Def::Function(_))) { swap(d, &Ct::Id(id), &inst); } }
                    let _ = rewriter::rewrite(&mut self.inits, &mut SwapFun { x: id, by: inst });
                } else {
                    swap(&mut def, &Ct::Id(id), &Ct::generic_inst(Ct::Id(id), args(&ps, Ct::Id(p))));
                    self.defs.remove(&id);
                    self.swap_all(&Ct::Id(id), &inst);
                    self.defs.insert(id, Def::generic(ps, def));
                }
            }
            // a function found in a table, as class methods are
            4 => {
                let fs: Vec<CtId> = ids.iter().copied().filter(|i| matches!(self.defs[i], Def::Function(_)) && !self.generic.contains(i)).collect();
                if fs.is_empty() { return }
                let f = fs[s.below(fs.len() as u64) as usize];
                let (id, key, mut t) = (w.ct.next(), w.ct.next(), AliasTable::new());
                t.insert(key, Ct::Id(f));
                self.defs.insert(id, Def::AliasTable(t));
                let by = Ct::table_get(Ct::Id(id), key);
                if s.bool() { for d in self.defs.values_mut() { let _ = rewriter::rewrite(d, &mut SwapFun { x: f, by: by.clone() }); } }
                let _ = rewriter::rewrite(&mut self.inits, &mut SwapFun { x: f, by });
            }
            // a type parameter of a local function
            _ => {
                let at = s.below(ids.len() as u64 + 1) as usize;
                let found = if at < ids.len() { cts(&self.defs[&ids[at]]) } else { cts(&self.inits) };
                let Some(x) = pick(s, &found) else { return };
                if self.fun(&x) { return }
                let (p, done, n);
                p = w.ct.next();
                macro_rules! go { ($t:expr) => {{
                    let t = $t;
                    let mut l = Locals { x: x.clone(), p, pick: &mut || s.below(3) == 0, done: None };
                    let _ = l.rewrite(t);
                    done = l.done;
                    if let Some(f) = done {
                        let mut c = CountParams { f, n: 0 };
                        let _ = c.traverse(&*t);
                        n = c.n;
                        let _ = rewriter::rewrite(t, &mut LocalUseOutside { f, n: n - 1, arg: x.clone() });
                    }
                }} }
                if at < ids.len() { go!(self.defs.get_mut(&ids[at]).unwrap()) } else { go!(&mut self.inits) }
            }
        }
    }
}

// ---------------------------------------------------------------- what lowered programs look like
struct Left(Option<&'static str>, BTreeSet<CtId>);
impl Traverser for Left {
    type Error = ();
    fn after_ct(&mut self, ct: &Ct) -> Result<(), ()> {
        match ct { Ct::GenericInst(_) | Ct::TableGet(_) => self.0 = Some("an uninstantiated type"), Ct::Id(i) => { self.1.insert(*i); } _ => {} }
        Ok(())
    }
    fn before_rt(&mut self, rt: &Rt) -> Result<bool, ()> {
        match rt {
            Rt::Match(_) | Rt::And(_) | Rt::Or(_) => self.0 = Some("a branching construct"),
            Rt::LocalFun(_) | Rt::LetLocalFun(_) => self.0 = Some("a local function"),
            Rt::ConstructData(_) => self.0 = Some("a data constructor"),
            _ => {}
        }
        Ok(true)
    }
}
fn left(x: &impl Traverse, ids: &mut BTreeSet<CtId>) -> Option<&'static str> { let mut l = Left(None, BTreeSet::new()); let _ = l.traverse(x); ids.append(&mut l.1); l.0 }

pub struct Lowered { pub defs: HashMap<CtId, Arc<Def>>, pub inits: Vec<Init> }
pub fn lower(w: &World, p: &Prog) -> Lowered {
    let mut ctx = context(w.ct.clone(), w.rt.clone());
    for (id, d) in &p.defs { define(&mut ctx, *id, d.clone()); }
    let mods: HashMap<ModuleId, Arc<Module>> = HashMap::new();
    let mut out = Lowered { defs: HashMap::new(), inits: vec![] };
    for i in &p.inits {
        let (i, defs) = ctx.populate(&Given(i.clone()), &mods);
        for (id, d) in defs { if out.defs.insert(id, Arc::clone(d)).is_some() { kit::fail("a definition is delivered once") } }
        // everything the code needs has been delivered by now
        let mut ids = BTreeSet::new();
        if let Some(m) = left(&i, &mut ids) { kit::fail(&format!("lowering leaves {}", m)) }
        for d in out.defs.values() { if let Some(m) = left(&**d, &mut ids) { kit::fail(&format!("lowering leaves {}", m)) } }
        for d in out.defs.values() { if !matches!(**d, Def::Struct(_) | Def::Union(_) | Def::Function(_)) { kit::fail("only structs, unions and functions are left") } }
        if ids.iter().any(|i| !out.defs.contains_key(i)) { kit::fail("every definition in use is delivered") }
        out.inits.push(i);
    }
    out
}
fn show(p: &BTreeMap<CtId, Def>, inits: &[Init]) -> String { format!("{} {}", p.iter().map(|(k, d)| format!("{} = {};", k, d)).collect::<String>(), inits.iter().map(|i| format!("{}", i.expr)).collect::<Vec<_>>().join(" ;; ")) }

pub fn check<S: Src>(s: &mut S, w: &mut World, obs: Vec<(T, Rt)>, disguises: u64) {
    let inits: Vec<Init> = obs.iter().map(|(t, e)| Init::new(w.to_ct(t), e.clone())).collect();
    let before: HashMap<CtId, Arc<Def>> = w.defs.clone();
    let mut p = Prog { defs: w.defs.iter().map(|(k, d)| (*k, (**d).clone())).collect(), inits: inits.clone(), generic: BTreeSet::new() };
    for _ in 0..disguises { p.disguise(s, w) }
    note(|| show(&p.defs, &p.inits));
    if std::env::var("KIT_SHOW").is_ok() { eprintln!("{}", show(&p.defs, &p.inits)) }
    let size_of = |_: &Ct| (0, 0);
    let mut want = vec![];
    let mut it = Interp::new(&before, &w.host, &size_of);
    it.fuel = 5000;
    for i in &inits {
        match it.run(&i.expr) { Ok(v) => want.push((v, it.trace.clone())), Err(m) => { if std::env::var("KIT_VERBOSE").is_ok() && m != "fuel" { eprintln!("the reference rejects: {}", m) } discard() } }
    }
    let l = lower(w, &p);
    let mut it = Interp::new(&l.defs, &w.host, &size_of);
    it.fuel = 500_000;
    for (i, (v, tr)) in l.inits.iter().zip(want) {
        match it.run(&i.expr) {
            Ok(x) => {
                if !same(&x, &v) { kit::fail(&format!("the lowered program computes something else: {:?} instead of {:?}", x, v)) }
                chk!(it.trace == tr, "the lowered program does the same things in the same order");
            }
            Err(m) => kit::fail(&format!("the lowered program goes wrong: {}", m)),
        }
        if let Some(t) = i.expr.ty() { chk!(*t == i.ty, "the lowered program keeps its types"); }
    }
    reach!("lowered");
}
fn observable<S: Src>(w: &World, s: &mut S) -> T {
    loop { let t = match s.below(4) { 0 => T::Str, 1 if !w.structs.is_empty() => { let i = s.below(w.structs.len() as u64) as usize; if !flat(w, &T::St(i)) { continue } T::St(i) } _ => w.scalar(s) }; return t }
}
fn flat(w: &World, t: &T) -> bool { match t { T::St(i) => w.structs[*i].1.iter().all(|t| flat(w, t)), T::Da(_) | T::Un(_) | T::P(_) | T::Arr(_) | T::Cl(..) | T::Syn(_) => false, _ => true } }
kit::obligation!(programs, native, |s| {
    let mut w = World::new(Mode::Full);
    w.types(s);
    for _ in 0..s.below(4) { w.function(s, 30); }
    let n = 1 + s.below(3);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| { let t = observable(&w, s); let e = w.gen(s, &t, 60); (t, e) }).collect();
    let k = s.below(7);
    check(s, &mut w, obs, k);
});
// cells and what points to them: which of them may live on the stack
kit::obligation!(cells, native, |s| {
    let mut w = World::new(Mode::Full);
    let u = T::I(false, 64);
    let p = |t: &T| T::P(Box::new(t.clone()));
    let i = w.add_struct(vec![p(&u), u.clone()]);
    w.pool = vec![p(&u), u.clone(), p(&p(&u))];
    if s.bool() { w.pool.push(T::St(i)); w.pool.push(p(&T::St(i))) }
    if s.bool() { w.pool.push(T::Arr(Box::new(p(&u)))) }
    for _ in 0..1 + s.below(4) { w.function(s, 40); }
    let n = 1 + s.below(2);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| { let e = w.gen(s, &u, 80); (u.clone(), e) }).collect();
    check(s, &mut w, obs, 0);
});
/// The ways a pointer takes, and the places that keep it.
struct Ways<'a> { w: &'a mut World, qs: Vec<RtId>, pp: Rt, sp: Rt, ap: Rt, st: usize }
impl Ways<'_> {
    fn u(&self) -> T { T::I(false, 64) }
    fn qt(&self) -> Ct { Ct::ptr(Ct::U(64)) }
    fn way<S: Src>(&mut self, s: &mut S, d: u32) -> Rt {
        let (q, k) = (self.qt(), s.below(14));
        if d == 0 || k < 5 { let i = s.below(self.qs.len() as u64) as usize; return Rt::Var(self.qs[i], q) }
        match k {
            5 => { let c = int(&BOOL, s.below(2)); let (a, b) = (self.way(s, d - 1), self.way(s, d - 1)); Rt::if_(c, a, b) }
            6 => { let v = self.w.rt.next(); let e = self.way(s, d - 1); Rt::let_var(vec![RtVar::new(v, q.clone(), e)], Rt::Var(v, q)) }
            7 => { let st = Ct::Id(self.w.structs[self.st].0); let e = self.way(s, d - 1); Rt::unary(Unary::StructElem(q, 0), Rt::construct_struct(st, vec![e, int(&self.u(), 3)])) }
            8 => { let e = self.way(s, d - 1); Rt::unary(Unary::Load, Rt::alloc(Location::Heap, e)) }
            9 => { let v = self.w.rt.next(); let e = self.way(s, d - 1); Rt::match_(e, vec![RtClause::new(RtPat::Var(v, q.clone(), None), Rt::Var(v, q))]) }
            10 => { let e = self.way(s, d - 1); Rt::unary(Unary::SyntaxBody, Rt::construct_syntax(loc(), e)) }
            11 => { let c = self.step(s, d - 1); let e = self.way(s, d - 1); Rt::seq(vec![c], e) }
            12 => { let v = self.w.rt.next(); let e = Rt::alloc(Location::Heap, int(&self.u(), s.below(5))); self.qs.push(v); let b = self.way(s, d - 1); self.qs.pop(); Rt::let_var(vec![RtVar::new(v, q, e)], b) }
            _ => { let f = self.w.rt.next(); let e = self.way(s, d - 1); Rt::let_local_fun(vec![RtLocalFun::new(f, vec![], vec![], q.clone(), e)], Rt::call(RtCallee::Standard(Rt::local_fun(f, vec![], Ct::clos(vec![], q))), vec![])) }
        }
    }
    fn step<S: Src>(&mut self, s: &mut S, d: u32) -> Rt {
        let e = self.way(s, d);
        match s.below(8) {
            0 => Rt::binary(Binary::Store, e, self.pp.clone()),
            1 => { let st = Ct::Id(self.w.structs[self.st].0); Rt::binary(Binary::Store, Rt::construct_struct(st, vec![e, int(&self.u(), 4)]), self.sp.clone()) }
            2 => Rt::ternary(Ternary::ArrayStore, int(&self.u(), s.below(2)), e, self.ap.clone()),
            3 => Rt::binary(Binary::Store, e, Rt::unary(Unary::ArrayPtr, self.ap.clone())),
            4 | 5 => Rt::call(RtCallee::CDirect("obs".into(), Ct::U(64)), vec![Rt::unary(Unary::Load, e)]),
            6 => { let v = Rt::unary(Unary::Load, self.way(s, d)); Rt::binary(Binary::Store, Rt::binary(Binary::UAdd, v, int(&self.u(), 7)), e) }
            _ => Rt::binary(Binary::Store, Rt::binary(Binary::UAdd, Rt::unary(Unary::Load, e.clone()), int(&self.u(), 9)), Rt::unary(Unary::Load, self.pp.clone())),
        }
    }
}
kit::obligation!(escapes, native, |s| {
    let mut w = World::new(Mode::Full);
    let u = T::I(false, 64);
    let p = |t: &T| T::P(Box::new(t.clone()));
    let st = w.add_struct(vec![p(&u), u.clone()]);
    let (qt, uct) = (Ct::ptr(Ct::U(64)), Ct::U(64));
    let (ppt, spt, apt) = (Ct::ptr(qt.clone()), Ct::ptr(Ct::Id(w.structs[st].0)), Ct::array(qt.clone()));
    let vars = |w: &mut World| (w.rt.next(), w.rt.next(), w.rt.next());
    // a function that makes cells, and keeps some of them in its arguments
    let (pp, sp, ap) = vars(&mut w);
    let f = w.ct.next();
    let n = 1 + s.below(3);
    let qs: Vec<RtId> = (0..n).map(|_| w.rt.next()).collect();
    let mut g = Ways { w: &mut w, qs: vec![], pp: Rt::Var(pp, ppt.clone()), sp: Rt::Var(sp, spt.clone()), ap: Rt::Var(ap, apt.clone()), st };
    let mut body = vec![];
    for (i, q) in qs.iter().enumerate() { g.qs.push(*q); let v = int(&u, 10 * (i as u64 + 1)); body.push(RtVar::new(*q, qt.clone(), Rt::alloc(Location::Heap, v))); }
    let ss: Vec<Rt> = (0..1 + s.below(4)).map(|_| g.step(s, 3)).collect();
    let e = g.way(s, 2);
    let ret_cell = s.below(4) == 0;
    let body = Rt::let_var(body, Rt::seq(ss, if ret_cell { e } else { Rt::unary(Unary::Load, e) }));
    let ret = if ret_cell { qt.clone() } else { uct.clone() };
    let transparent = s.below(3) == 0;
    w.defs.insert(f, Arc::new(Def::Function(Function::standard(None, vec![RtParam::new(pp, ppt.clone()), RtParam::new(sp, spt.clone()), RtParam::new(ap, apt.clone())], ret.clone(), body, transparent))));
    // its use, once or again and again
    let (pp, sp, ap) = vars(&mut w);
    let init = |w: &World| vec![
        RtVar::new(pp, ppt.clone(), Rt::alloc(Location::Heap, Rt::alloc(Location::Heap, int(&u, 0)))),
        RtVar::new(sp, spt.clone(), Rt::alloc(Location::Heap, Rt::construct_struct(Ct::Id(w.structs[st].0), vec![Rt::alloc(Location::Heap, int(&u, 1)), int(&u, 2)]))),
        RtVar::new(ap, apt.clone(), Rt::alloc_array(Location::Heap, qt.clone(), int(&u, 2))),
    ];
    let (ppv, spv, apv) = (Rt::Var(pp, ppt.clone()), Rt::Var(sp, spt.clone()), Rt::Var(ap, apt.clone()));
    let mut vs = init(&w);
    let z = w.rt.next();
    vs.push(RtVar::new(z, qt.clone(), Rt::alloc(Location::Heap, int(&u, 5))));
    let obs = |e: Rt| Rt::call(RtCallee::CDirect("obs".into(), Ct::U(64)), vec![e]);
    let call = || { let ct = Ct::clos(vec![ppt.clone(), spt.clone(), apt.clone()], ret.clone()); let c = Rt::call(RtCallee::Standard(Rt::static_fun(Ct::Id(f), ct, None)), vec![ppv.clone(), spv.clone(), apv.clone()]); if ret_cell { Rt::unary(Unary::Load, c) } else { c } };
    let mut ss = vec![Rt::ternary(Ternary::ArrayStore, int(&u, 0), Rt::Var(z, qt.clone()), apv.clone()), Rt::ternary(Ternary::ArrayStore, int(&u, 1), Rt::Var(z, qt.clone()), apv.clone())];
    for _ in 0..1 + s.below(2) {
        ss.push(obs(call()));
        let at = |i: u64| Rt::unary(Unary::Load, Rt::binary(Binary::ArrayLoad, int(&u, i), apv.clone()));
        ss.push(obs(Rt::unary(Unary::Load, Rt::unary(Unary::Load, ppv.clone()))));
        ss.push(obs(Rt::unary(Unary::Load, Rt::unary(Unary::StructElem(qt.clone(), 0), Rt::unary(Unary::Load, spv.clone())))));
        ss.push(obs(at(0)));
        ss.push(obs(at(1)));
    }
    let e = Rt::let_var(vs, Rt::seq(ss, call()));
    check(s, &mut w, vec![(u.clone(), e)], 0);
});
// pattern matching alone: many clauses over nested data
kit::obligation!(matches, native, |s| {
    let mut w = World::new(Mode::Full);
    w.types(s);
    let n = 1 + s.below(3);
    let obs: Vec<(T, Rt)> = (0..n).map(|_| w.match_only(s)).collect();
    check(s, &mut w, obs, 0);
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C10", c10::programs, 3, native, "programs of at most 4 functions and 60 nodes, 6 disguises"),
        kit::entry!("C10", c10::cells, 2, native, "programs of at most 4 functions and 80 nodes over few types"),
        kit::entry!("C10", c10::escapes, 1, native, "functions of at most 3 cells and 4 steps"),
        kit::entry!("C10", c10::matches, 1, native, "matches of at most 7 clauses"),
    ]
}
