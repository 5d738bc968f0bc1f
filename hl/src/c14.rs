//! C14: matches cover every value, and each of their clauses some value.
#![cfg(not(kani))]
use crate::front::{build, tree, T};
use kit::*;
use llrl::ast;
use llrl::module::Error;
use llrl::pattern_matching as pm;

// ---------------------------------------------------------------- types and patterns
#[derive(Clone, Debug, PartialEq)]
enum Ty { Data(usize, Vec<Ty>), Param(usize), Tuple(Vec<Ty>), Const(usize) }
const CONSTS: [(&str, &[&str]); 6] = [
    ("I32", &["0", "1", "-1", "2147483647"]), ("U64", &["0", "7", "255"]), ("Char", &["#\\a", "#\\b", "#\\)"]),
    ("String", &["\"\"", "\"a\"", "\"a b)\"", "\"_\""]), ("F64", &["0.5", "1.5", "-2.5"]), ("U8", &["0", "255"]),
];
/// A data type: its parameters, and its constructors with their fields.
struct Data { params: usize, cons: Vec<(String, Option<Vec<Ty>>)>, kw: &'static str }
fn ty_text(t: &Ty, ds: &[Data]) -> String {
    let list = |h: String, ts: &[Ty]| format!("({}{})", h, ts.iter().map(|t| format!(" {}", ty_text(t, ds))).collect::<String>());
    match t {
        Ty::Data(i, ts) => if ts.is_empty() { name(*i) } else { list(name(*i), ts) },
        Ty::Param(i) => ["A", "B"][*i].into(),
        Ty::Tuple(ts) => if ts.is_empty() { "unit".into() } else { list(":".into(), ts) },
        Ty::Const(i) => CONSTS[*i].0.into(),
    }
}
fn name(i: usize) -> String { ["Bool", "Option", "Result", "D3", "D4", "D5", "D6"][i].into() }
fn subst(t: &Ty, a: &[Ty]) -> Ty {
    match t {
        Ty::Param(i) => a[*i].clone(),
        Ty::Data(i, ts) => Ty::Data(*i, ts.iter().map(|t| subst(t, a)).collect()),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| subst(t, a)).collect()),
        Ty::Const(i) => Ty::Const(*i),
    }
}
#[derive(Clone, Debug, PartialEq)]
enum P { Any, Con(usize, Vec<P>), Const(usize) }
/// The alternatives of a type, if there are finitely many.
fn alts(t: &Ty, ds: &[Data]) -> Option<Vec<Vec<Ty>>> {
    match t {
        Ty::Data(i, a) => Some(ds[*i].cons.iter().map(|(_, f)| f.iter().flatten().map(|t| subst(t, a)).collect()).collect()),
        Ty::Tuple(ts) => Some(vec![ts.clone()]),
        _ => None,
    }
}
/// Prints a pattern, with names and the like if `s` is given, as an error message would if not.
fn text(p: &P, t: &Ty, ds: &[Data], k: &mut u32, deco: &mut impl FnMut() -> u64) -> String {
    *k += 1;
    let n = *k;
    let x = match p {
        P::Any => return match deco() { 0..=3 => "_".into(), _ => format!("(let v{})", n) },
        P::Const(c) => match t { Ty::Const(i) => CONSTS[*i].1[*c].to_string(), _ => unreachable!() },
        P::Con(c, ps) => {
            let ts = &alts(t, ds).unwrap()[*c];
            let args: String = ps.iter().zip(ts).map(|(p, t)| format!(" {}", text(p, t, ds, k, deco))).collect();
            match t {
                Ty::Tuple(ts) => if ts.is_empty() { "unit".into() } else { format!("(:{})", args) },
                Ty::Data(0, _) => if *c == 0 { "#f".into() } else { "#t".into() },
                Ty::Data(i, _) => match &ds[*i].cons[*c] { (n, None) => n.clone(), (n, _) => format!("({}{})", n, args) },
                _ => unreachable!(),
            }
        }
    };
    if deco() == 7 { format!("(let v{} {})", n, x) } else { x }
}
/// Reads a pattern an error message prints.
fn read(x: &T, t: &Ty, ds: &[Data]) -> Option<P> {
    if *x == T::A("_".into()) { return Some(P::Any) }
    match t {
        Ty::Const(i) => match x { T::A(a) => CONSTS[*i].1.iter().position(|c| c == a).map(P::Const), _ => None },
        Ty::Data(0, _) => match x { T::A(a) => match a.as_str() { "#t" | "true" => Some(P::Con(1, vec![])), "#f" | "false" => Some(P::Con(0, vec![])), _ => None }, _ => None },
        _ => {
            let (h, args) = match x { T::A(a) => (a.as_str(), &[][..]), T::L(l) => match l.split_first()? { (T::A(a), r) => (a.as_str(), r), _ => return None } };
            let c = match t { Ty::Tuple(_) => if h == ":" || h == "unit" { 0 } else { return None }, Ty::Data(i, _) => ds[*i].cons.iter().position(|c| c.0 == h)?, _ => return None };
            let ts = &alts(t, ds)?[c];
            if ts.len() != args.len() { return None }
            Some(P::Con(c, args.iter().zip(ts).map(|(x, t)| read(x, t, ds)).collect::<Option<_>>()?))
        }
    }
}
// ---------------------------------------------------------------- what matches what
/// A partly known value.
#[derive(Clone, Debug)]
enum V { Any(Ty), Con(usize, Vec<V>), Const(usize), Other }
enum M { Yes, No, Ask(Vec<usize>) }
fn matches(p: &P, v: &V, other: bool) -> M {
    match (p, v) {
        // a wildcard for a constant stands for those not mentioned in what is reported
        (P::Any, V::Const(_)) if other => M::No,
        (P::Any, _) => M::Yes,
        (_, V::Any(_)) => M::Ask(vec![]),
        (P::Con(a, ps), V::Con(b, vs)) => {
            if a != b { return M::No }
            let mut ask = None;
            for (i, (p, v)) in ps.iter().zip(vs).enumerate() {
                match matches(p, v, other) { M::No => return M::No, M::Yes => {} M::Ask(mut w) => if ask.is_none() { w.insert(0, i); ask = Some(w) } }
            }
            ask.map_or(M::Yes, M::Ask)
        }
        (P::Const(a), V::Const(b)) => if a == b { M::Yes } else { M::No },
        _ => M::No,
    }
}
fn at<'a>(v: &'a mut V, w: &[usize]) -> &'a mut V {
    match w.split_first() { None => v, Some((i, w)) => match v { V::Con(_, vs) => at(&mut vs[*i], w), _ => unreachable!() } }
}
fn expand(v: &V, w: &[usize], ds: &[Data]) -> Vec<V> {
    let mut v = v.clone();
    let t = match at(&mut v, w) { V::Any(t) => t.clone(), _ => unreachable!() };
    let to: Vec<V> = match (&t, alts(&t, ds)) {
        (_, Some(a)) => a.into_iter().enumerate().map(|(i, ts)| V::Con(i, ts.into_iter().map(V::Any).collect())).collect(),
        (Ty::Const(i), _) => (0..CONSTS[*i].1.len()).map(V::Const).chain([V::Other]).collect(),
        _ => unreachable!(),
    };
    to.into_iter().map(|x| { let mut v = v.clone(); *at(&mut v, w) = x; v }).collect()
}
/// Whether there is a value that matches all of `yes` and none of `no`.
fn exists(yes: &[(&P, bool)], no: &[P], v: V, ds: &[Data], fuel: &mut u32) -> bool {
    if *fuel == 0 { discard() }
    *fuel -= 1;
    let mut ask = None;
    for (p, o) in yes { match matches(p, &v, *o) { M::No => return false, M::Yes => {} M::Ask(w) => { ask = Some(w); break } } }
    if ask.is_none() { for p in no { match matches(p, &v, false) { M::Yes => return false, M::No => {} M::Ask(w) => { ask = Some(w); break } } } }
    match ask { None => true, Some(w) => expand(&v, &w, ds).into_iter().any(|v| exists(yes, no, v, ds, fuel)) }
}
// ---------------------------------------------------------------- programs
fn ty<S: Src>(s: &mut S, ds: &[Data], params: usize, depth: u32) -> Ty {
    match s.below(if depth == 0 { 4 } else { 9 }) {
        0 if params > 0 => Ty::Param(s.below(params as u64) as usize),
        0 | 1 => Ty::Data(0, vec![]),
        2 | 3 => if s.below(3) == 0 { Ty::Tuple(vec![]) } else { Ty::Const(s.below(6) as usize) },
        4 => { let n = 1 + s.below(3); Ty::Tuple((0..n).map(|_| ty(s, ds, params, depth - 1)).collect()) }
        _ => { let i = 1 + s.below(ds.len() as u64 - 1) as usize; Ty::Data(i, (0..ds[i].params).map(|_| ty(s, ds, params, depth - 1)).collect()) }
    }
}
fn wild<'a>(p: &'a mut P, t: &Ty, ds: &[Data], out: &mut Vec<(&'a mut P, Ty)>) {
    if *p == P::Any { out.push((p, t.clone())); return }
    if let P::Con(c, ps) = p { for (p, t) in ps.iter_mut().zip(&alts(t, ds).unwrap()[*c]) { wild(p, t, ds, out) } }
}
fn nodes<'a>(p: &'a mut P, k: &mut usize) -> Option<&'a mut P> {
    if *k == 0 { return Some(p) }
    *k -= 1;
    if let P::Con(_, ps) = p { for p in ps { if let Some(x) = nodes(p, k) { return Some(x) } } }
    None
}
/// Clauses that often cover everything exactly once.
fn clauses<S: Src>(s: &mut S, t: &Ty, ds: &[Data], row: Option<usize>) -> Vec<P> {
    let mut ps = vec![row.map_or(P::Any, |n| P::Con(0, vec![P::Any; n]))];
    for _ in 0..s.below(7) {
        let i = s.below(ps.len() as u64) as usize;
        let mut w = vec![];
        let mut p = ps[i].clone();
        wild(&mut p, t, ds, &mut w);
        if w.is_empty() { continue }
        let k = s.below(w.len() as u64) as usize;
        let ty = w[k].1.clone();
        let to: Vec<P> = match (&ty, alts(&ty, ds)) {
            (_, Some(a)) => a.iter().enumerate().map(|(c, ts)| P::Con(c, vec![P::Any; ts.len()])).collect(),
            (Ty::Const(i), _) => { let n = CONSTS[*i].1.len() as u64; let a = s.below(n) as usize; vec![P::Const(a), P::Any] }
            _ => unreachable!(),
        };
        if ps.len() + to.len() > 11 { continue }
        let old = ps[i].clone();
        let mut new: Vec<P> = to.into_iter().map(|x| { let mut p = old.clone(); let mut w = vec![]; wild(&mut p, t, ds, &mut w); *w[k].0 = x; p }).collect();
        ps.remove(i);
        // after a constant comes the rest
        for (j, p) in new.drain(..).enumerate() { ps.insert(i + j, p) }
    }
    let changes = s.below(6);
    for _ in 0..changes.min(3) {
        let i = s.below(ps.len() as u64) as usize;
        match s.below(if changes < 3 { 2 } else { 6 }) {
            0 => { let j = s.below(ps.len() as u64) as usize; ps.swap(i, j) }
            1 if ps.len() > 1 => { ps.remove(i); }
            2 | 3 => { let mut k = s.below(6) as usize; if row.is_some() && k == 0 { continue } if let Some(p) = nodes(&mut ps[i], &mut k) { *p = P::Any } }
            4 => { let p = ps[i].clone(); let j = s.below(ps.len() as u64 + 1) as usize; ps.insert(j, p) }
            _ => ps.push(row.map_or(P::Any, |n| P::Con(0, vec![P::Any; n]))),
        }
    }
    ps
}
fn datas<S: Src>(s: &mut S) -> Vec<Data> {
    let mut ds: Vec<Data> = vec![
        Data { params: 0, cons: vec![("false".into(), None), ("true".into(), None)], kw: "" },
        Data { params: 1, cons: vec![("none".into(), None), ("some".into(), Some(vec![Ty::Param(0)]))], kw: "" },
        Data { params: 2, cons: vec![("err".into(), Some(vec![Ty::Param(1)])), ("ok".into(), Some(vec![Ty::Param(0)]))], kw: "" },
    ];
    let n = s.below(4) as usize;
    // declared first: the types refer to each other
    for i in 0..n { ds.push(Data { params: s.below(3).min(1) as usize, cons: vec![], kw: "data" }) }
    for i in 3..3 + n {
        for c in 0..1 + s.below(4) {
            let fields = match s.below(5) { 0 | 1 => None, k => { let d = if k == 2 { 1 } else { 0 }; let m = 1 + s.below(3); Some((0..m).map(|_| ty(s, &ds, ds[i].params, d)).collect()) } };
            ds[i].cons.push((format!("c{}-{}", i, c), fields));
        }
    }
    ds
}
kit::obligation!(matches_, native, |s| {
    let ds = datas(s);
    let mut src = String::new();
    for (i, d) in ds.iter().enumerate().skip(3) {
        let h = if d.params == 0 { name(i) } else { format!("({} A)", name(i)) };
        src += &format!("({} {}", d.kw, h);
        for (c, f) in &d.cons { src += &match f { None => format!(" {}", c), Some(f) => format!(" ({}{})", c, f.iter().map(|t| format!(" {}", ty_text(t, &ds))).collect::<String>()) } }
        src += ")\n";
    }
    src += "(function (id x) {(forall A) (-> A A)} x)\n(class (K A) (function (m a x) {(forall B) (-> A B I32)} 0))\n";
    let mut all: Vec<(Ty, Vec<P>, Vec<String>, usize)> = vec![];
    for i in 0..1 + s.below(3) as usize {
        let t = ty(s, &ds, 0, 2);
        let ps = if s.below(40) == 0 { vec![] } else { clauses(s, &t, &ds, None) };
        let tt = ty_text(&t, &ds);
        let (mut k, plain) = (0, s.below(3) == 0);
        let ps_text: Vec<String> = ps.iter().map(|p| text(p, &t, &ds, &mut k, &mut || if plain { 0 } else { s.below(8) })).collect();
        let wrap = s.below(12);
        let m = |x: &str| format!("\n(match {}{})\n", match wrap { 0 => format!("(match 0 [_ {}])", x), 1 => format!("(id {})", x), 2 => format!("(let ([q {}]) q)", x), 3 => format!("(begin 0 {})", x), 4 => format!("(if #t {} {})", x, x), 5 => format!("{} {{{}}}", x, tt), _ => x.to_string() }, ps_text.iter().map(|p| format!(" [{} 0]", p)).collect::<String>());
        let mx = m("x");
        let (pre, mid, post) = match s.below(21) {
            0 => (format!("(function (f{} x) {{(-> {} I32)}} (let ([y ", i, tt), mx, "]) y))".into()),
            1 => (format!("(function (f{} z) {{(-> {} I32)}} (let ([(g x) {{(-> {} I32)}} ", i, tt, tt), mx, "]) (g z)))".to_string()),
            2 => (format!("(function (f{} x) {{(-> {} I32)}} (if #t ", i, tt), mx, " 0))".into()),
            3 => (format!("(function (f{} x) {{(-> {} I32)}} (if #t 0 ", i, tt), mx, "))".into()),
            4 => (format!("(function (f{} x) {{(-> {} I32)}} ", i, tt), mx, " 0)".into()),
            5 => (format!("(function (f{} x) {{(-> {} I32)}} (while #f ", i, tt), mx, ") 0)".into()),
            6 => (format!("(function (f{} x) {{(-> {} I32)}} (match ", i, tt), mx, " [_ 0]))".into()),
            7 => (format!("(function (f{} x) {{(-> {} I32)}} (match 0 [1 0] [_ ", i, tt), mx, "]))".into()),
            8 => (format!("(function (f{} x) {{(-> {} I32)}} (id ", i, tt), mx, "))".into()),
            9 => (format!("(function (f{} x) {{(-> {} I32)}} (match (: 0 ", i, tt), mx, ") [(: _ (let y)) y]))".into()),
            10 => (format!("(function v{} {{{}}} v{})\n(instance K{} (K {}) (function (m x y) ", i, tt, i, i, ["I32", "U8", "Char"][i]), m(&format!("v{}", i)), "))".into()),
            11 => (format!("(function v{} {{{}}} v{})\n", i, tt, i), m(&format!("v{}", i)), String::new()),
            12 => (format!("(function v{} {{{}}} v{})\n(macro (mm{} s) (let ([y ", i, tt, i, i), m(&format!("v{}", i)), "]) (err \"\")))".into()),
            13 => (format!("(function (f{} x) {{(-> {} I32)}} (return ", i, tt), mx, "))".into()),
            14 => (format!("(function v{} {{{}}} v{})\n(class (L{} A) (function (l{} a) {{(-> A I32)}} ", i, tt, i, i, i), m(&format!("v{}", i)), "))".into()),
            15 => (format!("(function (f{} x) {{(-> {} I32)}} (if (match ", i, tt), mx, "[_ #t]) 0 1))".into()),
            16 => (format!("(function (f{} x) {{(-> {} I32)}} (while (match ", i, tt), mx, "[_ #t]) 1) 0)".into()),
            17 => (format!("(function v{} {{{}}} v{})\n(instance K{} (K {}) (function (m x y) (let ([(g z) ", i, tt, i, i, ["I32", "U8", "Char"][i]), m(&format!("v{}", i)), "]) 0)))".into()),
            18 => (format!("(function (f{} x) {{(-> {} I32)}} (let ([y 0]) ", i, tt), mx, "))".into()),
            19 => (format!("(function (f{} x) {{(-> {} I32)}} ", i, tt), mx, " {I32})".into()),
            _ => (format!("(function (f{} x) {{(-> {} I32)}} ", i, tt), mx, ")".into()),
        };
        src += &pre;
        let line = src.matches('\n').count() + 2; // (0-based; a line is put before the text)
        src += &mid;
        src += &post;
        src.push('\n');
        all.push((t, ps, ps_text, line));
    }
    note(|| src.clone());
    // what is wrong with each match
    enum W { Fine, Useless(usize), Missing }
    let mut fuel = 4000;
    let want: Vec<W> = all.iter().map(|(t, ps, _, _)| {
        for i in 0..ps.len() { if !exists(&[(&ps[i], false)], &ps[..i], V::Any(t.clone()), &ds, &mut fuel) { return W::Useless(i) } }
        if ps.is_empty() || exists(&[], ps, V::Any(t.clone()), &ds, &mut fuel) { W::Missing } else { W::Fine }
    }).collect();
    let b = build(&src);
    let fine = want.iter().all(|w| matches!(w, W::Fine));
    match &b.result {
        Ok(_) => { chk!(fine, "a match that misses a value or has a clause for none is refused"); reach!("accepted") }
        Err(e) => {
            let mut at = None;
            let mut e = e;
            while let Error::On(sym, inner) = &**e { at = Some(b.line(sym.loc)); e = inner }
            let found = match &**e { Error::UselessPattern(_) | Error::NonExhaustivePattern(_) => true, _ => false };
            if !found { note(|| format!("{:?}", e)); fail("a well-typed program is refused only for its matches") }
            chk!(!fine, "a match whose clauses cover every value, each some value, is accepted");
            // (a body of one expression has the location of the body)
            let i = match at.and_then(|(l, m)| { let mut x = all.iter().enumerate().filter(|(_, a)| l <= a.3 && a.3 <= m); let i = x.next()?.0; x.next().is_none().then_some(i) }) { Some(i) => i, None => { fail("the error is located at a match") } };
            let (t, ps, _, _) = &all[i];
            let parse = |x: &String| match tree(x).and_then(|x| read(&x, t, &ds)) { Some(p) => p, None => { note(|| format!("reported: {}", x)); fail("what is reported is a pattern of the type") } };
            match (&**e, &want[i]) {
                (Error::UselessPattern(x), W::Useless(k)) => { note(|| format!("reported: {}", x)); chk!(parse(x) == ps[*k], "the first clause that matches nothing is reported"); reach!("useless") }
                (Error::NonExhaustivePattern(xs), W::Missing) => {
                    note(|| format!("reported: {:?}", xs));
                    chk!(!xs.is_empty(), "a missing pattern is reported");
                    for x in xs {
                        let x = parse(x);
                        for p in ps { chk!(!exists(&[(&x, true), (p, false)], &[], V::Any(t.clone()), &ds, &mut fuel), "no clause matches what is reported as missing"); }
                    }
                    reach!("missing");
                }
                (Error::UselessPattern(_), _) => fail("a clause is called useless only if it matches nothing"),
                _ => fail("a match is called incomplete only if it misses a value and has no useless clause"),
            }
        }
    }
});
// ---------------------------------------------------------------- the checker itself
fn pat(p: &P, t: &Ty, ds: &[Data], ids: &Ids) -> pm::Pattern {
    match p {
        P::Any => pm::Pattern::Wildcard,
        P::Const(c) => pm::Pattern::Constructor(pm::Tag::Const(match t { Ty::Const(i) if i % 2 == 0 => ast::Const::Integer(c % 2 == 0, *c as u64), _ => ast::Const::String(c.to_string()) }), vec![]),
        P::Con(c, ps) => {
            let a = alts(t, ds).unwrap();
            pm::Pattern::Constructor(pm::Tag::Finite(ids.of(t, ds)[*c], ids.of(t, ds).into()), ps.iter().zip(&a[*c]).map(|(p, t)| pat(p, t, ds, ids)).collect())
        }
    }
}
fn unpat(p: &pm::Pattern, t: &Ty, ds: &[Data], ids: &Ids) -> Option<P> {
    Some(match p {
        pm::Pattern::Wildcard => P::Any,
        pm::Pattern::Constructor(pm::Tag::Const(ast::Const::Integer(_, c)), _) => P::Const(*c as usize),
        pm::Pattern::Constructor(pm::Tag::Const(ast::Const::String(c)), _) => P::Const(c.parse().ok()?),
        pm::Pattern::Constructor(pm::Tag::Finite(c, _), ps) => {
            let c = ids.of(t, ds).iter().position(|x| x == c)?;
            let a = alts(t, ds)?;
            if a[c].len() != ps.len() { return None }
            P::Con(c, ps.iter().zip(&a[c]).map(|(p, t)| unpat(p, t, ds, ids)).collect::<Option<_>>()?)
        }
        _ => return None,
    })
}
/// The constructors of the data types, and of tuples.
struct Ids(Vec<Vec<ast::ValueCon>>, Vec<ast::ValueCon>);
impl Ids {
    fn of(&self, t: &Ty, ds: &[Data]) -> Vec<pm::FiniteCon> {
        match t {
            Ty::Data(i, _) => self.0[*i].iter().zip(&ds[*i].cons).map(|(c, d)| pm::FiniteCon::new(*c, d.1.as_ref().map_or(0, |f| f.len()))).collect(),
            Ty::Tuple(ts) => vec![pm::FiniteCon::new(self.1[ts.len()], ts.len())],
            _ => unreachable!(),
        }
    }
}
kit::obligation!(rows, native, |s| {
    let ds = datas(s);
    let mut gen = ast::NodeIdGenerator::in_module(ast::ModuleId::from_index(1));
    let mut con = || ast::ValueCon::Data(gen.generate());
    let ids = Ids(ds.iter().map(|d| d.cons.iter().map(|_| con()).collect()).collect(), (0..5).map(|_| con()).collect());
    let n = 1 + s.below(4) as usize;
    let ts: Vec<Ty> = (0..n).map(|_| ty(s, &ds, 0, 2)).collect();
    let t = Ty::Tuple(ts.clone());
    let ps = clauses(s, &t, &ds, Some(n));
    note(|| format!("{} matched by {:?}", ty_text(&t, &ds), ps));
    let row = |p: &P| match p { P::Con(_, ps) => pm::Row::new(ps.iter().zip(&ts).map(|(p, t)| pat(p, t, &ds, &ids)).collect()), _ => unreachable!() };
    let unrow = |r: pm::Row| { let c: Option<Vec<P>> = r.iter().zip(&ts).map(|(p, t)| unpat(p, t, &ds, &ids)).collect(); match c { Some(c) if r.len() == n => P::Con(0, c), _ => fail("a reported row has the types of the columns") } };
    let mut fuel = 4000;
    let useless = (0..ps.len()).find(|&i| !exists(&[(&ps[i], false)], &ps[..i], V::Any(t.clone()), &ds, &mut fuel));
    match pm::check(ps.iter().map(row).collect()) {
        Ok(()) => { chk!(useless.is_none(), "a row that matches nothing more is reported"); chk!(!exists(&[], &ps, V::Any(t.clone()), &ds, &mut fuel), "rows that miss a value are reported"); reach!("accepted") }
        Err(pm::Error::Useless(r)) => { chk!(useless.map(|i| &ps[i]) == Some(&unrow(r)), "the first row that matches nothing more is reported"); reach!("useless") }
        Err(pm::Error::NonExhaustive(m)) => {
            chk!(useless.is_none(), "a row that matches nothing more is reported first");
            chk!(!m.is_row_empty(), "a missing row is reported");
            chk!(exists(&[], &ps, V::Any(t.clone()), &ds, &mut fuel), "rows are called incomplete only if they miss a value");
            for r in m.into_rows() { let x = unrow(r); for p in &ps { chk!(!exists(&[(&x, true), (p, false)], &[], V::Any(t.clone()), &ds, &mut fuel), "no row matches what is reported as missing"); } }
            reach!("missing");
        }
    }
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C14", c14::rows, 1, native, "at most 15 rows of at most 4 columns, on types of at most 7 data types nested 2 deep"),
        kit::entry!("C14", c14::matches_, 1, native, "at most 3 matches of at most 15 clauses, on types of at most 7 data types nested 2 deep"),
    ]
}
