//! C15: a program computes what its text means.
//!
//! Random programs (data types, classes, instances, generic and local functions, closures, matches,
//! loops, returns) go through the real front end, lowering, code generation and JIT; the memory cells
//! they leave behind are compared with those of a reference that reads the same syntax tree.
#![cfg(not(kani))]
use crate::c09::{in_child, shared};
use crate::sgen::Gen;
use crate::surf::*;
use crate::front;
use kit::*;
use llrl::backend::chibi::verif::*;
use llrl::lowering::{self, ir::{CtId, Def as IrDef, Function, Init, Sexp, Syntax}};
use llrl::module::{Backend as _, Error};
use llrl::report::Report;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Default)]
pub struct Collect { pub defs: HashMap<CtId, Arc<IrDef>>, pub inits: Vec<Init> }
impl lowering::Backend for Collect {
    fn put_def(&mut self, id: CtId, def: Arc<IrDef>) { self.defs.insert(id, def); }
    fn put_main(&mut self, init: Init) { self.inits.push(init) }
    fn execute_macro(&mut self, _: CtId, _: Syntax<Sexp>) -> Result<Syntax<Sexp>, String> { Err("none".into()) }
    fn complete(self, _: &mut Report) {}
}
/// What an error is about.
pub fn inner(e: &Error) -> &Error { match e { Error::On(_, e) | Error::RequiredFor(_, e) => inner(e), e => e } }
pub fn shuffle<S: Src>(s: &mut S, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = s.below(i as u64 + 1) as usize; v.swap(i, j) }
    v
}
pub fn lower(b: &front::Built) -> Collect {
    let Ok(entry) = &b.result else { unreachable!() };
    let l = lowering::Lowerizer::new(Collect::default());
    for m in b.modules.values() { if m.id() != entry.id() { l.add_module(m.clone(), false) } }
    l.add_module(entry.clone(), true);
    l.complete(&mut Report::new())
}
struct Wrong(String);
/// Runs the program and compares the cells.
pub fn run(b: &front::Built, want: &[i64; 8], text: &str) {
    let c = lower(b);
    let base = shared() as *mut i64;
    for i in 0..8 { unsafe { *base.add(i) = 0 } }
    let Collect { defs, inits } = c;
    let r = in_child(|| {
        let main = Function::main(inits);
        let mut ctx = Context::new();
        ctx.add_types(&defs);
        let obj = object(&defs, Some(&main), &mut ctx).unwrap();
        let mut ex = Executor::new();
        ex.add_object(&obj);
        let f = ctx.main_function_symbol().unwrap();
        ex.call_main(f);
        0
    });
    if let Err(m) = r { fail(&m) }
    let got: Vec<i64> = (0..8).map(|i| unsafe { *base.add(i) }).collect();
    if got != want { note(|| format!("{}\ncells {:?}, expected {:?}", text, got, want)); fail("the program computes something else") }
}
pub fn whole<S: Src>(s: &mut S, make: impl FnOnce(&mut Gen<S>)) {
    let p = { let mut g = Gen::new(s); make(&mut g); let mut p = g.p; renumber(&mut p); p };
    let names = match resolve(&p) { Ok(n) => n, Err(_) => { reached("unresolved"); discard() } };
    let typing = match infer(&p, &names) { Ok(t) => t, Err(m) => { if std::env::var("KIT_VERBOSE").is_ok() { eprintln!("{}\n{}", m, p.text(0, &(0..p.decls()).collect::<Vec<_>>())) } reached("ill-typed"); discard() } };
    if !finite(&p, &names, &typing) { reached("specialised for ever"); discard() }
    let mut r = Run::new(&p, &names, &typing);
    for e in &p.inits { match r.ex(e, &Env::default(), &Default::default()) { Ok(_) => {} Err(Flow::Ret(_)) => { reached("return"); discard() } Err(Flow::Fuel) => { reached("fuel"); discard() } Err(Flow::None_) => { reached("no clause"); discard() } } }
    let want = r.cells;
    let order = shuffle(s, p.decls());
    let text = p.text(shared() as usize, &order);
    let own = text.split("(tick k)").nth(1).map_or(text.clone(), |t| t.lines().skip(1).collect::<Vec<_>>().join("\n"));
    note(|| own.clone());
    let b = front::build(&text);
    match &b.result {
        Err(e) if matches!(inner(e), Error::UselessPattern(_) | Error::NonExhaustivePattern(_)) => { reached("pattern"); discard() }
        Err(e) => fail(&format!("a well-typed program is refused: {:?}", e)),
        Ok(_) => {}
    }
    if p.classes.len() > BUILTIN_CLASSES { reached("classes") }
    if p.datas.len() > BUILTIN_DATAS { reached("data types") }
    if !p.funs.is_empty() { reached("functions") }
    run(&b, &want, &own);
}
kit::obligation!(programs, native, |s| { whole(s, |g| g.program()) });
pub fn entries() -> Vec<Entry> {
    vec![kit::entry!("C15", c15::programs, 1, native, "programs of at most 4 data types, 2 classes, 8 instances and 5 functions of some 30 nodes each")]
}
