//! C16: the front end accepts exactly the well-typed programs and finds the principal schemes.
#![cfg(not(kani))]
use crate::c15::{inner, shuffle};
use crate::sgen::Gen;
use crate::surf::*;
use crate::front::{self, Built};
use kit::*;
use llrl::ast;
use llrl::module::Error;
use std::collections::BTreeSet;

fn kind(e: &Error) -> String { let s = format!("{:?}", inner(e)); s.split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string() }
/// A scheme up to the names of its parameters.
type Canon = (String, BTreeSet<String>);
fn var<T: PartialEq>(v: T, seen: &mut Vec<T>) -> String { let k = seen.iter().position(|x| *x == v).unwrap_or_else(|| { seen.push(v); seen.len() - 1 }); format!("'{}", k) }
fn real_ty(b: &Built, t: &ast::Type, seen: &mut Vec<ast::NodeId<ast::TypeParameter>>) -> String {
    if let Some((a, r)) = t.matches_fun() { return format!("(-> {}{})", a.iter().map(|t| real_ty(b, t, seen) + " ").collect::<String>(), real_ty(b, r, seen)) }
    if let Some(a) = t.matches_tuple() { return format!("(: {})", a.iter().map(|t| real_ty(b, t, seen)).collect::<Vec<_>>().join(" ")) }
    match t {
        ast::Type::Gen(g) => var(*g, seen),
        ast::Type::App(h, a) => format!("({} {})", real_ty(b, h, seen), a.iter().map(|t| real_ty(b, t, seen)).collect::<Vec<_>>().join(" ")),
        ast::Type::Con(ast::TypeCon::Data(id)) => match b.modules.get(&id.module()).and_then(|m| m.symbol_map().get(*id)) { Some(s) => s.name.clone(), None => format!("{}", id) },
        ast::Type::Con(ast::TypeCon::Builtin(id)) => match b.modules.get(&id.module()).and_then(|m| m.symbol_map().get(*id)) { Some(s) => s.name.clone(), None => format!("{}", id) },
        t => format!("{:?}", t),
    }
}
fn real(b: &Built, s: &ast::Scheme) -> Canon {
    let mut seen = vec![];
    let t = real_ty(b, &s.body, &mut seen);
    let ps = s.s_params.iter().map(|c| match &c.rep {
        ast::ConstraintRep::Class(ast::Use::Resolved(id, _), args) => format!("{} {}", b.modules[&id.module()].symbol_map().get(*id).map_or("?".into(), |s| s.name.clone()), args.iter().map(|t| real_ty(b, t, &mut seen)).collect::<Vec<_>>().join(" ")),
        c => format!("{:?}", c),
    }).collect();
    (t, ps)
}
fn ref_ty(p: &Prog, t: &Ty, seen: &mut Vec<usize>) -> String {
    let mut l = |a: &[Ty]| a.iter().map(|t| ref_ty(p, t, seen)).collect::<Vec<_>>().join(" ");
    match t {
        Ty::G(g) => var(*g, seen),
        Ty::Tup(0) => "(: )".into(), Ty::Tup(n) => format!("Tuple.{}", n), Ty::Fun(n) => format!("Fun.{}", n),
        Ty::C(c) => c.to_string(), Ty::D(d) => p.datas[*d].name.clone(), Ty::V(v) => format!("?{}", v),
        Ty::Ap(h, a) => match **h { Ty::Fun(_) => format!("(-> {})", l(a)), Ty::Tup(_) => format!("(: {})", l(a)), ref h => { let h = ref_ty(p, h, seen); format!("({} {})", h, a.iter().map(|t| ref_ty(p, t, seen)).collect::<Vec<_>>().join(" ")) } },
    }
}
fn reference(p: &Prog, s: &Scheme) -> Canon {
    let mut seen = vec![];
    let t = ref_ty(p, &s.ty, &mut seen);
    (t, s.preds.iter().map(|q| format!("{} {}", p.classes[q.class].name, q.args.iter().map(|t| ref_ty(p, t, &mut seen)).collect::<Vec<_>>().join(" "))).collect())
}
pub fn compare<S: Src>(s: &mut S, p: &Prog) {
    let r = resolve(p).and_then(|n| infer(p, &n));
    if let Err(m) = &r { if m == UNDETERMINED { reached("undetermined"); discard() } }
    let order = shuffle(s, p.decls());
    let text = p.text(0x10000, &order);
    note(|| text.split("(tick k)").nth(1).map_or(text.clone(), |t| t.lines().skip(1).collect::<Vec<_>>().join("\n")));
    let b = front::build(&text);
    match (&r, &b.result) {
        (Err(m), Ok(_)) => fail(&format!("an ill-typed program is accepted: {}", m)),
        (Err(m), Err(e)) => { if matches!(inner(e), Error::UselessPattern(_) | Error::NonExhaustivePattern(_)) { fail(&format!("an ill-typed program is accepted: {}", m)) } reached("refused") }
        (Ok(_), Err(e)) => { if !matches!(inner(e), Error::UselessPattern(_) | Error::NonExhaustivePattern(_)) { fail(&format!("a well-typed program is refused: {}", kind(e))) } reached("accepted, but for its patterns") }
        (Ok(t), Ok(m)) => {
            reached("accepted");
            for (i, f) in p.funs.iter().enumerate() {
                if f.ann.is_some() { continue }
                let Some(id) = m.symbol_map().find_occurences::<ast::NodeId<ast::Function>>(&f.name).pop() else { fail("a function is declared") };
                let Some(sc) = m.inferred_types().scheme(id) else { fail("a function has a scheme") };
                let (x, y) = (real(&b, sc), reference(p, &t.funs[i]));
                if x != y { fail(&format!("{} has the scheme {:?}, the principal one is {:?}", f.name, x, y)) }
                if !t.funs[i].gens.is_empty() { reached("a generic function is inferred") }
            }
        }
    }
}
kit::obligation!(programs, native, |s| {
    let k = s.below(4);
    let p = { let mut g = Gen::new(s); g.program(); for _ in 0..k { g.mutate() } let mut p = g.p; renumber(&mut p); p };
    compare(s, &p)
});
kit::obligation!(terms, native, |s| {
    let p = { let mut g = Gen::new(s); g.terms(); let mut p = g.p; renumber(&mut p); p };
    compare(s, &p)
});
pub fn entries() -> Vec<Entry> {
    vec![kit::entry!("C16", c16::terms, 1, native, "at most 3 functions of terms nested 4 deep"),
        kit::entry!("C16", c16::programs, 1, native, "programs of at most 4 data types, 2 classes, 8 instances and 5 functions of some 30 nodes each, at most 3 changes")]
}
