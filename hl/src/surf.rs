//! A reference for the surface language: its names, its types and its meaning.
#![cfg(not(kani))]
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

// ------------------------------------------------------------------ types
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Ty { C(&'static str), D(usize), Fun(usize), Tup(usize), Ap(Box<Ty>, Vec<Ty>), V(usize), G(usize) }
pub const I64: Ty = Ty::C("I64");
pub const I32: Ty = Ty::C("I32");
pub const F64: Ty = Ty::C("F64");
pub const STR: Ty = Ty::C("String");
pub const CHAR: Ty = Ty::C("Char");
pub const BOOL: Ty = Ty::D(0);
pub const UNIT: Ty = Ty::Tup(0);
pub const OPTION: usize = 1;
pub const RESULT: usize = 2;
pub fn ap(h: Ty, a: Vec<Ty>) -> Ty { if a.is_empty() { h } else { Ty::Ap(Box::new(h), a) } }
pub fn fun(mut a: Vec<Ty>, r: Ty) -> Ty { let n = a.len(); a.push(r); ap(Ty::Fun(n), a) }
pub fn tup(a: Vec<Ty>) -> Ty { ap(Ty::Tup(a.len()), a) }
impl Ty {
    pub fn as_fun(&self) -> Option<(&[Ty], &Ty)> { if let Ty::Ap(h, a) = self { if let Ty::Fun(n) = **h { return Some((&a[..n], &a[n])) } } None }
    pub fn subst(&self, m: &BTreeMap<usize, Ty>) -> Ty {
        match self { Ty::G(g) => m.get(g).cloned().unwrap_or_else(|| self.clone()), Ty::Ap(h, a) => ap(h.subst(m), a.iter().map(|t| t.subst(m)).collect()), t => t.clone() }
    }
    pub fn walk(&self, f: &mut impl FnMut(&Ty)) { f(self); if let Ty::Ap(h, a) = self { h.walk(f); for t in a { t.walk(f) } } }
    pub fn gens(&self) -> BTreeSet<usize> { let mut s = BTreeSet::new(); self.walk(&mut |t| if let Ty::G(g) = t { s.insert(*g); }); s }
    pub fn size(&self) -> usize { let mut n = 0; self.walk(&mut |_| n += 1); n }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Pred { pub class: usize, pub args: Vec<Ty> }
impl Pred { pub fn subst(&self, m: &BTreeMap<usize, Ty>) -> Pred { Pred { class: self.class, args: self.args.iter().map(|t| t.subst(m)).collect() } } }
#[derive(Clone, Debug, PartialEq)]
pub struct Scheme { pub gens: Vec<usize>, pub preds: Vec<Pred>, pub ty: Ty }
pub fn mono(ty: Ty) -> Scheme { Scheme { gens: vec![], preds: vec![], ty } }
pub const NUMBER: usize = 0;
pub const FPNUMBER: usize = 1;

// ------------------------------------------------------------------ programs
pub type Bind = (String, usize);
#[derive(Clone, Debug)]
pub struct Ex { pub id: usize, pub k: K }
#[derive(Clone, Debug)]
pub enum K {
    Name(String), Int(bool, u64), Fp(f64), Str(String), Ch(char), Unit, Tup(Vec<Ex>), App(Box<Ex>, Vec<Ex>),
    Let(Vec<Def>, Vec<Ex>), Seq(Vec<Ex>), If(Box<Ex>, Box<Ex>, Box<Ex>), While(Box<Ex>, Vec<Ex>), Match(Box<Ex>, Vec<(Pat, Vec<Ex>)>), Ret(Option<Box<Ex>>), Ann(Box<Ex>, Ty),
}
#[derive(Clone, Debug)]
pub enum Def { Var(Bind, Option<Ty>, Ex), Fun(LFun) }
#[derive(Clone, Debug)]
pub struct LFun { pub name: Bind, pub params: Vec<Bind>, pub ann: Option<Scheme>, pub body: Vec<Ex> }
#[derive(Clone, Debug)]
pub struct Pat { pub id: usize, pub k: P }
#[derive(Clone, Debug)]
pub enum P { Wild, Var(String, Option<Box<Pat>>), Con(String, Option<Vec<Pat>>), Tup(Vec<Pat>), Int(bool, u64), Str(String), Ch(char) }
#[derive(Clone, Debug)]
pub struct Data { pub name: String, pub value: bool, pub gens: Vec<usize>, pub cons: Vec<(String, Option<Vec<Ty>>)> }
#[derive(Clone, Debug)]
pub struct Method { pub name: String, pub scheme: Scheme, pub params: Option<Vec<Bind>>, pub default: Option<Vec<Ex>> }
#[derive(Clone, Debug)]
pub struct Class { pub name: String, pub gens: Vec<usize>, pub supers: Vec<Pred>, pub methods: Vec<Method> }
#[derive(Clone, Debug)]
pub struct IMethod { pub m: usize, pub params: Option<Vec<Bind>>, pub body: Vec<Ex>, pub transparent: bool }
#[derive(Clone, Debug)]
pub struct Inst { pub name: String, pub gens: Vec<usize>, pub ctx: Vec<Pred>, pub target: Pred, pub methods: Vec<IMethod> }
#[derive(Clone, Debug)]
pub struct Func { pub name: String, pub transparent: bool, pub params: Option<Vec<Bind>>, pub ann: Option<Scheme>, pub body: Vec<Ex> }
#[derive(Clone, Debug)]
pub struct Op { pub name: &'static str, pub scheme: Scheme, pub lazy: bool }
#[derive(Clone, Debug)]
pub struct Prog { pub gens: Vec<(String, usize)>, pub datas: Vec<Data>, pub classes: Vec<Class>, pub insts: Vec<Inst>, pub funs: Vec<Func>, pub ops: Vec<Op>, pub inits: Vec<Ex>, pub next: usize }
pub const OPS: &str = r#"(builtin-type (Ptr A) "ptr")
(builtin-op i>p {(forall A) (-> U64 (Ptr A))} "integer.to-ptr")
(builtin-op pload {(forall A) (-> (Ptr A) A)} "ptr.load")
(builtin-op pstore {(forall A) (-> A (Ptr A) unit)} "ptr.store")
(builtin-op u64+ {(-> U64 U64 U64)} "unsigned.add")
(builtin-op u64* {(-> U64 U64 U64)} "unsigned.mul")
(builtin-op recast {(forall A B) (-> A B)} "bitcast")
(builtin-op sext {(forall A B) (-> A B)} "signed.ext")
(builtin-op fcast {(forall A B) (-> A B)} "float.to-signed")
(builtin-op i64+ {(-> I64 I64 I64)} "signed.add")
(builtin-op i64- {(-> I64 I64 I64)} "signed.sub")
(builtin-op i64* {(-> I64 I64 I64)} "signed.mul")
(builtin-op i64< {(-> I64 I64 Bool)} "signed.lt")
(builtin-op i64= {(-> I64 I64 Bool)} "integer.eq")
(builtin-op i32+ {(-> I32 I32 I32)} "signed.add")
(builtin-op i32< {(-> I32 I32 Bool)} "signed.lt")
(builtin-op f64+ {(-> F64 F64 F64)} "float.add")
(builtin-op f64* {(-> F64 F64 F64)} "float.mul")
(builtin-op f64< {(-> F64 F64 Bool)} "float.lt")
(builtin-op str++ {(-> String String String)} "string.concat")
(builtin-op str= {(-> String String Bool)} "string.eq")
(builtin-op slen {(-> String U64)} "string.length")
(builtin-op and {(-> Bool Bool Bool)} "and")
(builtin-op or {(-> Bool Bool Bool)} "or")
(builtin-op not {(-> Bool Bool)} "not")
(function (strlen s) {(-> String I64)} (recast (slen s)))
(function (i32>i64 a) {(-> I32 I64)} (sext a))
(function (cell k) {(-> I64 (Ptr I64))} (i>p (u64+ @BASE@ (u64* (recast k) 8))))
(function (get k) {(-> I64 I64)} (pload (cell k)))
(function (put k v) {(-> I64 I64 unit)} (pstore v (cell k)))
(function (tick k) {(-> I64 I64)} (begin (put 0 (i64+ (i64* (get 0) 31) k)) k))
"#;
pub fn ops() -> Vec<Op> {
    let o = |name, a: &[Ty], r: Ty| Op { name, scheme: mono(fun(a.to_vec(), r)), lazy: name == "and" || name == "or" };
    vec![
        o("i64+", &[I64, I64], I64), o("i64-", &[I64, I64], I64), o("i64*", &[I64, I64], I64), o("i64<", &[I64, I64], BOOL), o("i64=", &[I64, I64], BOOL),
        o("i32+", &[I32, I32], I32), o("i32<", &[I32, I32], BOOL), o("f64+", &[F64, F64], F64), o("f64*", &[F64, F64], F64), o("f64<", &[F64, F64], BOOL),
        o("str++", &[STR, STR], STR), o("str=", &[STR, STR], BOOL), o("strlen", &[STR], I64), o("and", &[BOOL, BOOL], BOOL), o("or", &[BOOL, BOOL], BOOL), o("not", &[BOOL], BOOL),
        o("i32>i64", &[I32], I64), o("get", &[I64], I64), o("put", &[I64, I64], UNIT), o("tick", &[I64], I64),
    ]
}
pub fn empty() -> Prog {
    let mut p = Prog { gens: vec![], datas: vec![], classes: vec![], insts: vec![], funs: vec![], ops: ops(), inits: vec![], next: 0 };
    let (a, t, e, n, f) = (p.gen("A", 0), p.gen("T", 0), p.gen("E", 0), p.gen("A", 0), p.gen("A", 0));
    p.datas = vec![
        Data { name: "Bool".into(), value: false, gens: vec![], cons: vec![("#f".into(), None), ("#t".into(), None)] },
        Data { name: "Option".into(), value: true, gens: vec![a], cons: vec![("none".into(), None), ("some".into(), Some(vec![Ty::G(a)]))] },
        Data { name: "Result".into(), value: true, gens: vec![t, e], cons: vec![("err".into(), Some(vec![Ty::G(e)])), ("ok".into(), Some(vec![Ty::G(t)]))] },
    ];
    p.classes = vec![Class { name: "Number".into(), gens: vec![n], supers: vec![], methods: vec![] }, Class { name: "FPNumber".into(), gens: vec![f], supers: vec![], methods: vec![] }];
    let b = |class, t: &'static str| Inst { name: format!("builtin.{}.{}", class, t), gens: vec![], ctx: vec![], target: Pred { class, args: vec![Ty::C(t)] }, methods: vec![] };
    for t in ["I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64"] { p.insts.push(b(NUMBER, t)) }
    for t in ["F32", "F64"] { p.insts.push(b(FPNUMBER, t)) }
    p
}
pub const BUILTIN_DATAS: usize = 3;
pub const BUILTIN_CLASSES: usize = 2;
pub const BUILTIN_INSTS: usize = 12;
impl Prog {
    pub fn gen(&mut self, name: &str, arity: usize) -> usize { self.gens.push((name.into(), arity)); self.gens.len() - 1 }
    pub fn id(&mut self) -> usize { self.next += 1; self.next }
    pub fn arity(&self, t: &Ty) -> usize { match t { Ty::D(d) => self.datas[*d].gens.len(), Ty::Fun(n) => n + 1, Ty::Tup(n) => *n, Ty::G(g) => self.gens[*g].1, _ => 0 } }
    pub fn data_ty(&self, d: usize) -> Ty { ap(Ty::D(d), self.datas[d].gens.iter().map(|g| Ty::G(*g)).collect()) }
    pub fn con_scheme(&self, d: usize, k: usize) -> Scheme {
        let t = self.data_ty(d);
        let ty = match &self.datas[d].cons[k].1 { None => t, Some(fs) => fun(fs.clone(), t) };
        Scheme { gens: self.datas[d].gens.clone(), preds: vec![], ty }
    }
    pub fn method_scheme(&self, c: usize, m: usize) -> Scheme {
        let (cl, me) = (&self.classes[c], &self.classes[c].methods[m]);
        let mut gens = cl.gens.clone();
        gens.extend(&me.scheme.gens);
        let mut preds = vec![self.class_pred(c)];
        preds.extend(me.scheme.preds.clone());
        Scheme { gens, preds, ty: me.scheme.ty.clone() }
    }
    pub fn class_pred(&self, c: usize) -> Pred { Pred { class: c, args: self.classes[c].gens.iter().map(|g| Ty::G(*g)).collect() } }
    // ---- text
    pub fn ts(&self, t: &Ty) -> String {
        let l = |a: &[Ty]| a.iter().map(|t| self.ts(t)).collect::<Vec<_>>().join(" ");
        match t {
            Ty::C(c) => c.to_string(), Ty::D(d) => self.datas[*d].name.clone(), Ty::G(g) => self.gens[*g].0.clone(), Ty::V(v) => format!("?{}", v), Ty::Tup(0) => "unit".into(),
            Ty::Fun(n) => format!("Fun.{}", n), Ty::Tup(n) => format!("Tuple.{}", n),
            Ty::Ap(h, a) => match **h { Ty::Fun(_) => format!("(-> {})", l(a)), Ty::Tup(_) => format!("(: {})", l(a)), ref h => format!("({} {})", self.ts(h), l(a)) },
        }
    }
    pub fn ps(&self, p: &Pred) -> String { format!("({} {})", self.classes[p.class].name, p.args.iter().map(|t| self.ts(t)).collect::<Vec<_>>().join(" ")) }
    pub fn ss(&self, s: &Scheme) -> String {
        let g = if s.gens.is_empty() { String::new() } else { format!("(forall {}) ", s.gens.iter().map(|g| self.gens[*g].0.clone()).collect::<Vec<_>>().join(" ")) };
        let w = if s.preds.is_empty() { String::new() } else { format!(" (where {})", s.preds.iter().map(|p| self.ps(p)).collect::<Vec<_>>().join(" ")) };
        format!("{{{}{}{}}}", g, self.ts(&s.ty), w)
    }
    fn b(&self, es: &[Ex]) -> String { es.iter().map(|e| self.e(e)).collect::<Vec<_>>().join(" ") }
    pub fn e(&self, e: &Ex) -> String {
        match &e.k {
            K::Name(n) => n.clone(), K::Int(s, v) => format!("{}{}", if *s { "-" } else { "" }, v), K::Fp(f) => format!("{:?}", f), K::Str(s) => format!("\"{}\"", s), K::Ch(c) => format!("#\\{}", c), K::Unit => "unit".into(),
            K::Tup(es) => format!("(: {})", self.b(es)), K::App(f, a) => if a.is_empty() { format!("({})", self.e(f)) } else { format!("({} {})", self.e(f), self.b(a)) },
            K::Let(ds, b) => format!("(let ({}) {})", ds.iter().map(|d| match d {
                Def::Var(n, t, e) => format!("[{}{} {}]", n.0, t.as_ref().map_or(String::new(), |t| format!(" {{{}}}", self.ts(t))), self.e(e)),
                Def::Fun(f) => format!("[({}){} {}]", std::iter::once(&f.name).chain(&f.params).map(|b| b.0.clone()).collect::<Vec<_>>().join(" "), f.ann.as_ref().map_or(String::new(), |s| format!(" {}", self.ss(s))), self.b(&f.body)),
            }).collect::<Vec<_>>().join(" "), self.b(b)),
            K::Seq(es) => format!("(begin {})", self.b(es)), K::If(a, b, c) => format!("(if {} {} {})", self.e(a), self.e(b), self.e(c)), K::While(c, b) => format!("(while {} {})", self.e(c), self.b(b)),
            K::Match(t, cs) => format!("(match {}{})", self.e(t), cs.iter().map(|(p, b)| format!(" [{} {}]", self.p(p), self.b(b))).collect::<String>()),
            K::Ret(None) => "(return)".into(), K::Ret(Some(e)) => format!("(return {})", self.e(e)), K::Ann(e, t) => format!("{}{{{}}}", self.e(e), self.ts(t)),
        }
    }
    fn p(&self, p: &Pat) -> String {
        let l = |ps: &[Pat]| ps.iter().map(|p| self.p(p)).collect::<Vec<_>>().join(" ");
        match &p.k {
            P::Wild => "_".into(), P::Var(n, None) => format!("(let {})", n), P::Var(n, Some(p)) => format!("(let {} {})", n, self.p(p)), P::Con(c, None) => c.clone(), P::Con(c, Some(ps)) => format!("({} {})", c, l(ps)),
            P::Tup(ps) => format!("(: {})", l(ps)), P::Int(s, v) => format!("{}{}", if *s { "-" } else { "" }, v), P::Str(s) => format!("\"{}\"", s), P::Ch(c) => format!("#\\{}", c),
        }
    }
    fn head(&self, tag: &str, n: &str, ps: &Option<Vec<Bind>>, s: Option<&Scheme>) -> String {
        let h = match ps { None => n.to_string(), Some(ps) => format!("({})", std::iter::once(n.to_string()).chain(ps.iter().map(|b| b.0.clone())).collect::<Vec<_>>().join(" ")) };
        format!("({} {}{}", tag, h, s.map_or(String::new(), |s| format!(" {}", self.ss(s))))
    }
    /// The program, its declarations in the given order (a permutation of 0..count).
    pub fn text(&self, base: usize, order: &[usize]) -> String {
        let mut ds = vec![];
        for d in &self.datas[BUILTIN_DATAS..] {
            let h = if d.gens.is_empty() { d.name.clone() } else { format!("({} {})", d.name, d.gens.iter().map(|g| self.gens[*g].0.clone()).collect::<Vec<_>>().join(" ")) };
            ds.push(format!("({} {} {})", if d.value { "value-data" } else { "data" }, h, d.cons.iter().map(|(n, f)| match f { None => n.clone(), Some(f) => format!("({} {})", n, f.iter().map(|t| self.ts(t)).collect::<Vec<_>>().join(" ")) }).collect::<Vec<_>>().join(" ")));
        }
        for c in &self.classes[BUILTIN_CLASSES..] {
            let w = if c.supers.is_empty() { String::new() } else { format!(" (where {})", c.supers.iter().map(|p| self.ps(p)).collect::<Vec<_>>().join(" ")) };
            ds.push(format!("(class ({} {}){}{})", c.name, c.gens.iter().map(|g| self.gens[*g].0.clone()).collect::<Vec<_>>().join(" "), w,
                c.methods.iter().map(|m| format!("\n  {}{})", self.head("function", &m.name, &m.params, Some(&m.scheme)), m.default.as_ref().map_or(String::new(), |b| format!(" {}", self.b(b))))).collect::<String>()));
        }
        for i in &self.insts[BUILTIN_INSTS..] {
            let g = if i.gens.is_empty() { String::new() } else { format!(" (forall {})", i.gens.iter().map(|g| self.gens[*g].0.clone()).collect::<Vec<_>>().join(" ")) };
            let w = if i.ctx.is_empty() { String::new() } else { format!(" (where {})", i.ctx.iter().map(|p| self.ps(p)).collect::<Vec<_>>().join(" ")) };
            ds.push(format!("(instance {}{} {}{}{})", i.name, g, self.ps(&i.target), w, i.methods.iter().map(|m| format!("\n  {} {})", self.head(if m.transparent { "transparent-function" } else { "function" }, &self.classes[i.target.class].methods[m.m].name, &m.params, None), self.b(&m.body))).collect::<String>()));
        }
        for f in &self.funs { ds.push(format!("{} {})", self.head(if f.transparent { "transparent-function" } else { "function" }, &f.name, &f.params, f.ann.as_ref()), self.b(&f.body))) }
        let mut t = OPS.replace("@BASE@", &base.to_string());
        for i in order { if let Some(d) = ds.get(*i) { t += d; t += "\n" } }
        for e in &self.inits { t += &self.e(e); t += "\n" }
        t
    }
    pub fn decls(&self) -> usize { self.datas.len() - BUILTIN_DATAS + self.classes.len() - BUILTIN_CLASSES + self.insts.len() - BUILTIN_INSTS + self.funs.len() }
    // ---- traversal
    pub fn bodies(&self) -> Vec<&[Ex]> {
        let mut v: Vec<&[Ex]> = self.funs.iter().map(|f| &f.body[..]).collect();
        for c in &self.classes { for m in &c.methods { if let Some(b) = &m.default { v.push(b) } } }
        for i in &self.insts { for m in &i.methods { v.push(&m.body) } }
        v.push(&self.inits);
        v
    }
    pub fn bodies_mut(&mut self) -> Vec<&mut Vec<Ex>> {
        let mut v: Vec<&mut Vec<Ex>> = self.funs.iter_mut().map(|f| &mut f.body).collect();
        for c in &mut self.classes { for m in &mut c.methods { if let Some(b) = &mut m.default { v.push(b) } } }
        for i in &mut self.insts { for m in &mut i.methods { v.push(&mut m.body) } }
        v.push(&mut self.inits);
        v
    }
}
pub fn each(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
    f(e);
    match &mut e.k {
        K::Tup(es) | K::Seq(es) => for e in es { each(e, f) },
        K::App(g, a) => { each(g, f); for e in a { each(e, f) } }
        K::Let(ds, b) => { for d in ds { match d { Def::Var(_, _, e) => each(e, f), Def::Fun(l) => for e in &mut l.body { each(e, f) } } } for e in b { each(e, f) } }
        K::If(a, b, c) => { each(a, f); each(b, f); each(c, f) }
        K::While(c, b) => { each(c, f); for e in b { each(e, f) } }
        K::Match(t, cs) => { each(t, f); for (_, b) in cs { for e in b { each(e, f) } } }
        K::Ret(Some(e)) | K::Ann(e, _) => each(e, f),
        _ => {}
    }
}
fn pat_ids(p: &mut Pat, next: &mut usize) {
    *next += 1; p.id = *next;
    match &mut p.k { P::Var(_, Some(q)) => pat_ids(q, next), P::Con(_, Some(ps)) | P::Tup(ps) => for q in ps { pat_ids(q, next) }, _ => {} }
}
/// Gives every node and binder an id of its own.
pub fn renumber(p: &mut Prog) {
    let mut next = p.next;
    let mut bs = |b: &mut Option<Vec<Bind>>| if let Some(b) = b { for x in b { next += 1; x.1 = next } };
    for f in &mut p.funs { bs(&mut f.params) }
    for c in &mut p.classes { for m in &mut c.methods { bs(&mut m.params) } }
    for i in &mut p.insts { for m in &mut i.methods { bs(&mut m.params) } }
    for b in p.bodies_mut() { for e in b.iter_mut() { each(e, &mut |e| {
        next += 1; e.id = next;
        match &mut e.k {
            K::Let(ds, _) => for d in ds { match d { Def::Var(b, ..) => { next += 1; b.1 = next } Def::Fun(l) => { next += 1; l.name.1 = next; for b in &mut l.params { next += 1; b.1 = next } } } },
            K::Match(_, cs) => for (p, _) in cs { pat_ids(p, &mut next) },
            _ => {}
        }
    }) } }
    p.next = next;
}

// ------------------------------------------------------------------ names
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ref { Local(usize), LFun(usize), Fun(usize), Op(usize), Method(usize, usize), Con(usize, usize), Gen(usize), Other }
pub struct Names { pub refs: HashMap<usize, Ref> }
struct Res<'a> { p: &'a Prog, top: HashMap<String, Ref>, refs: HashMap<usize, Ref>, scopes: Vec<HashMap<String, Ref>>, anns: HashMap<usize, Vec<(usize, usize)>> }
pub type R<T> = Result<T, String>;
impl Res<'_> {
    fn get(&self, n: &str) -> Option<Ref> { self.scopes.iter().rev().find_map(|s| s.get(n)).or_else(|| self.top.get(n)).copied() }
    fn scope<T>(&mut self, ns: Vec<(String, Ref)>, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let mut m = HashMap::new();
        for (n, r) in ns { if m.insert(n.clone(), r).is_some() { return Err(format!("{} is bound twice", n)) } }
        self.scopes.push(m);
        let r = f(self);
        self.scopes.pop();
        r
    }
    fn ty(&self, t: &Ty) -> R<()> {
        let mut r = Ok(());
        t.walk(&mut |t| if let Ty::G(g) = t { if self.get(&self.p.gens[*g].0) != Some(Ref::Gen(*g)) { r = Err(format!("the type {} is not in scope", self.p.gens[*g].0)) } });
        r
    }
    fn gens(&self, gs: &[usize]) -> Vec<(String, Ref)> { gs.iter().map(|g| (self.p.gens[*g].0.clone(), Ref::Gen(*g))).collect() }
    fn binds(&self, bs: &[Bind]) -> Vec<(String, Ref)> { bs.iter().map(|b| (b.0.clone(), Ref::Local(b.1))).collect() }
    fn scheme(&mut self, s: &Scheme) -> R<()> { let g = self.gens(&s.gens); self.scope(g, |c| { for p in &s.preds { for t in &p.args { c.ty(t)? } } c.ty(&s.ty) }) }
    fn code(&mut self, ann: Option<&Scheme>, ps: &[Bind], body: &[Ex]) -> R<()> {
        if let Some(s) = ann { self.scheme(s)? }
        let g = ann.map_or(vec![], |s| self.gens(&s.gens));
        let b = self.binds(ps);
        self.scope(g, |c| c.scope(b, |c| c.es(body)))
    }
    fn es(&mut self, es: &[Ex]) -> R<()> { for e in es { self.ex(e)? } Ok(()) }
    fn ex(&mut self, e: &Ex) -> R<()> {
        match &e.k {
            K::Name(n) => match self.get(n) { None | Some(Ref::Gen(_) | Ref::Other) => Err(format!("no value {}", n)), Some(r) => { self.refs.insert(e.id, r); Ok(()) } },
            K::Tup(es) | K::Seq(es) => self.es(es),
            K::App(f, a) => { self.ex(f)?; self.es(a) }
            K::Let(ds, b) => {
                let fs: Vec<_> = ds.iter().filter_map(|d| if let Def::Fun(f) = d { Some((f.name.0.clone(), Ref::LFun(f.name.1))) } else { None }).collect();
                let all: Vec<_> = ds.iter().map(|d| match d { Def::Fun(f) => (f.name.0.clone(), Ref::LFun(f.name.1)), Def::Var(b, ..) => (b.0.clone(), Ref::Local(b.1)) }).collect();
                self.scope(fs, |c| { for d in ds { match d { Def::Var(_, t, e) => { if let Some(t) = t { c.ty(t)? } c.ex(e)? } Def::Fun(f) => c.code(f.ann.as_ref(), &f.params, &f.body)? } } Ok(()) })?;
                self.scope(all, |c| c.es(b))
            }
            K::If(a, b, c) => { self.ex(a)?; self.ex(b)?; self.ex(c) }
            K::While(c, b) => { self.ex(c)?; self.es(b) }
            K::Match(t, cs) => { self.ex(t)?; for (p, b) in cs { let mut bs = vec![]; self.pat(p, &mut bs)?; self.scope(bs, |c| c.es(b))? } Ok(()) }
            K::Ret(Some(e)) => self.ex(e),
            K::Ann(e, t) => { self.ex(e)?; self.ty(t) }
            _ => Ok(()),
        }
    }
    fn pat(&mut self, p: &Pat, bs: &mut Vec<(String, Ref)>) -> R<()> {
        match &p.k {
            P::Var(n, q) => { bs.push((n.clone(), Ref::Local(p.id))); if let Some(q) = q { self.pat(q, bs)? } Ok(()) }
            P::Con(n, ps) => { match self.get(n) { Some(r @ Ref::Con(..)) => { self.refs.insert(p.id, r); } _ => return Err(format!("no constructor {}", n)) } for q in ps.iter().flatten() { self.pat(q, bs)? } Ok(()) }
            P::Tup(ps) => { for q in ps { self.pat(q, bs)? } Ok(()) }
            _ => Ok(()),
        }
    }
}
pub fn resolve(p: &Prog) -> R<Names> {
    let mut r = Res { p, top: HashMap::new(), refs: HashMap::new(), scopes: vec![], anns: HashMap::new() };
    let mut def = |n: &str, x: Ref| if r.top.insert(n.into(), x).is_some() { Err(format!("{} is declared twice", n)) } else { Ok(()) };
    for n in ["Ptr", "i>p", "pload", "pstore", "u64+", "u64*", "recast", "sext", "fcast", "slen", "cell", "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "String", "Char"] { def(n, Ref::Other)? }
    for (d, x) in p.datas.iter().enumerate() { def(&x.name, Ref::Other)?; for (k, c) in x.cons.iter().enumerate() { def(&c.0, Ref::Con(d, k))? } }
    for (c, x) in p.classes.iter().enumerate() { def(&x.name, Ref::Other)?; for (m, f) in x.methods.iter().enumerate() { def(&f.name, Ref::Method(c, m))? } }
    for x in &p.insts { def(&x.name, Ref::Other)? }
    for (i, f) in p.funs.iter().enumerate() { def(&f.name, Ref::Fun(i))? }
    for (i, o) in p.ops.iter().enumerate() { def(o.name, Ref::Op(i))? }
    for d in &p.datas { let g = r.gens(&d.gens); r.scope(g, |c| { for t in d.cons.iter().flat_map(|c| c.1.iter().flatten()) { c.ty(t)? } Ok(()) })? }
    for x in &p.classes { let g = r.gens(&x.gens); r.scope(g, |c| { for s in &x.supers { for t in &s.args { c.ty(t)? } } for m in &x.methods { c.code(Some(&m.scheme), m.params.as_deref().unwrap_or(&[]), m.default.as_deref().unwrap_or(&[]))? } Ok(()) })? }
    for x in &p.insts {
        let g = r.gens(&x.gens);
        r.scope(g, |c| { for t in x.ctx.iter().chain([&x.target]).flat_map(|p| &p.args) { c.ty(t)? } for m in &x.methods { c.code(None, m.params.as_deref().unwrap_or(&[]), &m.body)? } Ok(()) })?;
        let ms = &p.classes[x.target.class].methods;
        let mut seen = BTreeSet::new();
        for m in &x.methods { if !seen.insert(m.m) { return Err("a method is given twice".into()) } if m.params.as_ref().map(|p| p.len()) != ms[m.m].params.as_ref().map(|p| p.len()) { return Err("a method has another number of parameters".into()) } }
        for (k, m) in ms.iter().enumerate() { if m.default.is_none() && !seen.contains(&k) { return Err("a method is missing".into()) } }
    }
    for f in &p.funs { r.code(f.ann.as_ref(), f.params.as_deref().unwrap_or(&[]), &f.body)? }
    r.es(&p.inits)?;
    Ok(Names { refs: r.refs })
}

// ------------------------------------------------------------------ types of programs
pub struct Typing { pub funs: Vec<Scheme>, pub inst: HashMap<usize, Vec<Ty>>, pub lit: HashMap<usize, Ty>, pub gens: usize, pub locals: HashMap<usize, Vec<usize>> }
struct Sc { level: u32, preds: Vec<Pred>, premise: Vec<Pred> }
struct Inf<'a> { p: &'a Prog, refs: &'a HashMap<usize, Ref>, sub: Vec<Option<Ty>>, lev: Vec<u32>, ar: Vec<usize>, gar: Vec<usize>, glev: HashMap<usize, u32>, locals: HashMap<usize, Scheme>, funs: Vec<Option<Scheme>>, inst: HashMap<usize, Vec<Ty>>, lit: HashMap<usize, Ty>, ret: Vec<Option<Ty>>, sc: Vec<Sc>, group: Vec<(BTreeSet<Ref>, Vec<usize>)> }
const BOTTOM: u32 = u32::MAX;
/// The order of inference decides: nothing is claimed.
pub const UNDETERMINED: &str = "undetermined";
impl Inf<'_> {
    fn var(&mut self, level: u32, ar: usize) -> Ty { self.sub.push(None); self.lev.push(level); self.ar.push(ar); Ty::V(self.sub.len() - 1) }
    fn here(&mut self) -> Ty { let l = self.level(); self.var(l, 0) }
    fn level(&self) -> u32 { self.sc.last().unwrap().level }
    fn res(&self, t: &Ty) -> Ty {
        match t { Ty::V(v) => match &self.sub[*v] { Some(t) => self.res(t), None => t.clone() }, Ty::Ap(h, a) => ap(self.res(h), a.iter().map(|t| self.res(t)).collect()), t => t.clone() }
    }
    fn arity(&self, t: &Ty) -> usize { match t { Ty::V(v) => self.ar[*v], Ty::G(g) => self.gar[*g], t => self.p.arity(t) } }
    fn unify(&mut self, a: &Ty, b: &Ty) -> R<()> {
        let (a, b) = (self.res(a), self.res(b));
        if a == b { return Ok(()) }
        match (&a, &b) {
            (Ty::V(v), t) | (t, Ty::V(v)) => {
                let mut occurs = false;
                t.walk(&mut |x| occurs |= *x == Ty::V(*v));
                if occurs { return Err("an infinite type".into()) }
                if self.arity(t) != self.ar[*v] { return Err("another kind".into()) }
                let l = self.lev[*v];
                let mut bad = false;
                let mut low = vec![];
                t.walk(&mut |x| match x { Ty::V(w) => low.push(*w), Ty::G(g) => bad |= self.glev.get(g).copied().unwrap_or(1) > l, _ => {} });
                if bad { return Err("a type escapes".into()) }
                for w in low { if self.lev[w] > l { self.lev[w] = l } }
                self.sub[*v] = Some(t.clone());
                Ok(())
            }
            (Ty::Ap(f, x), Ty::Ap(g, y)) if x.len() == y.len() => { self.unify(f, g)?; for (a, b) in x.iter().zip(y) { self.unify(a, b)? } Ok(()) }
            _ => Err(format!("{:?} is not {:?}", a, b)),
        }
    }
    fn instantiate(&mut self, s: &Scheme, level: u32) -> (Vec<Ty>, Scheme) {
        let m: BTreeMap<usize, Ty> = s.gens.iter().map(|g| { let a = self.gar[*g]; (*g, self.var(level, a)) }).collect();
        (s.gens.iter().map(|g| m[g].clone()).collect(), Scheme { gens: vec![], preds: s.preds.iter().map(|p| p.subst(&m)).collect(), ty: s.ty.subst(&m) })
    }
    fn use_(&mut self, id: usize, s: Scheme) -> Ty {
        let l = self.level();
        let (tys, s) = self.instantiate(&s, l);
        self.inst.insert(id, tys);
        self.sc.last_mut().unwrap().preds.extend(s.preds);
        s.ty
    }
    fn vars(&self, ts: &[Ty], min: u32) -> BTreeSet<usize> { let mut s = BTreeSet::new(); for t in ts { self.res(t).walk(&mut |t| if let Ty::V(v) = t { if self.lev[*v] >= min { s.insert(*v); } }) } s }
    fn deepest(&self, ts: &[Ty]) -> u32 { let mut l = 1; for t in ts { self.res(t).walk(&mut |t| match t { Ty::V(v) => l = l.max(self.lev[*v]), Ty::G(g) => l = l.max(self.glev.get(g).copied().unwrap_or(1)), _ => {} }) } l }
    fn close(&self, ps: &[Pred]) -> Vec<Pred> {
        let mut v = vec![];
        for p in ps { let m: BTreeMap<usize, Ty> = self.p.classes[p.class].gens.iter().copied().zip(p.args.iter().cloned()).collect(); let s: Vec<Pred> = self.p.classes[p.class].supers.iter().map(|s| s.subst(&m)).collect(); v.extend(self.close(&s)); v.push(p.clone()) }
        v
    }
    fn solve(&self, premise: &[Pred], p: &Pred, depth: usize) -> R<()> {
        if depth > 20 { return Err("too deep".into()) }
        let args: Vec<Ty> = p.args.iter().map(|t| self.res(t)).collect();
        if premise.iter().any(|q| q.class == p.class && q.args.iter().map(|t| self.res(t)).collect::<Vec<_>>() == args) { return Ok(()) }
        for i in &self.p.insts {
            if i.target.class != p.class { continue }
            let mut m = BTreeMap::new();
            if i.target.args.iter().zip(&args).all(|(a, b)| matches(a, b, &i.gens, &mut m, &|g, t| self.gar[g] == self.arity(t))) {
                for c in &i.ctx { self.solve(premise, &c.subst(&m), depth + 1)? }
                return Ok(())
            }
        }
        Err(format!("no instance {:?}", (&self.p.classes[p.class].name, args)))
    }
    /// Ends a scope: what is generalised over, and what it requires.
    fn finish(&mut self, quantify: BTreeSet<usize>) -> R<(Vec<usize>, Vec<Pred>)> {
        let mut s = self.sc.pop().unwrap();
        let (level, outer) = (s.level, !self.sc.is_empty());
        let (mut out, mut cur, mut params, mut def) = (vec![], vec![], vec![], BTreeMap::<usize, Vec<Pred>>::new());
        for p in std::mem::take(&mut s.preds) {
            if outer && self.deepest(&p.args) < level { out.push(p); continue }
            let vs = self.vars(&p.args, level);
            let rest: Vec<usize> = vs.difference(&quantify).copied().collect();
            if !vs.is_empty() && rest.is_empty() { params.push(p) } else { for v in rest { def.entry(v).or_default().push(p.clone()) } cur.push(p) }
        }
        let mut gens = vec![];
        for v in quantify { let g = self.gar.len(); self.gar.push(self.ar[v]); self.unify(&Ty::V(v), &Ty::G(g))?; gens.push(g) }
        for (v, ps) in def {
            let has = |c: usize| ps.iter().any(|p| p.class == c && self.res(&p.args[0]) == Ty::V(v));
            let t = if has(FPNUMBER) { F64 } else if has(NUMBER) { I32 } else { UNIT };
            self.unify(&Ty::V(v), &t)?
        }
        for p in out { if self.solve(&s.premise, &p, 0).is_err() { self.sc.last_mut().unwrap().preds.push(p) } }
        for p in cur { self.solve(&s.premise, &p, 0)? }
        Ok((gens, params))
    }
    fn enter(&mut self, own: &[Pred]) {
        let (level, mut premise) = match self.sc.last() { Some(s) => (s.level + 1, s.premise.clone()), None => (1, vec![]) };
        premise.extend(self.close(own));
        self.sc.push(Sc { level, preds: vec![], premise })
    }
    fn params(&mut self, ps: Option<&[Bind]>, t: &Ty) -> R<Ty> {
        match ps {
            None => Ok(t.clone()),
            Some(ps) => { let vs: Vec<Ty> = ps.iter().map(|b| { let v = self.var(BOTTOM, 0); self.locals.insert(b.1, mono(v.clone())); v }).collect(); let r = self.var(BOTTOM, 0); self.unify(&fun(vs, r.clone()), t)?; Ok(r) }
        }
    }
    fn body(&mut self, ret: Ty, es: &[Ex]) -> R<()> { self.ret.push(Some(ret.clone())); let t = self.es(es)?; self.ret.pop(); self.unify(&ret, &t) }
    fn es(&mut self, es: &[Ex]) -> R<Ty> { let mut t = UNIT; for e in es { t = self.ex(e)? } Ok(t) }
    fn ex(&mut self, e: &Ex) -> R<Ty> {
        Ok(match &e.k {
            K::Name(_) => {
                let s = match self.refs[&e.id] {
                    Ref::Local(v) => self.locals[&v].clone(), Ref::LFun(v) => self.locals[&v].clone(), Ref::Fun(f) => self.funs[f].clone().unwrap(), Ref::Op(o) => self.p.ops[o].scheme.clone(),
                    Ref::Method(c, m) => self.p.method_scheme(c, m), Ref::Con(d, k) => self.p.con_scheme(d, k), _ => unreachable!(),
                };
                let r = self.refs[&e.id];
                if let Some((_, uses)) = self.group.iter_mut().rev().find(|(g, _)| g.contains(&r)) { uses.push(e.id) }
                self.use_(e.id, s)
            }
            K::Int(..) => { let v = self.here(); self.need(NUMBER, &v); self.lit.insert(e.id, v.clone()); v }
            K::Fp(_) => { let v = self.here(); self.need(FPNUMBER, &v); self.lit.insert(e.id, v.clone()); v }
            K::Str(_) => STR, K::Ch(_) => CHAR, K::Unit => UNIT,
            K::Tup(es) => { let ts = es.iter().map(|e| self.ex(e)).collect::<R<Vec<_>>>()?; tup(ts) }
            K::App(f, a) => { let t = self.ex(f)?; let ts = a.iter().map(|e| self.ex(e)).collect::<R<Vec<_>>>()?; let r = self.here(); self.unify(&t, &fun(ts, r.clone()))?; r }
            K::Ann(e, t) => { let a = self.ex(e)?; self.unify(&a, t)?; a }
            K::Seq(es) => self.es(es)?,
            K::If(a, b, c) => { let t = self.ex(a)?; self.unify(&t, &BOOL)?; let b = self.ex(b)?; let c = self.ex(c)?; self.unify(&b, &c)?; b }
            K::While(c, b) => { let t = self.ex(c)?; self.unify(&t, &BOOL)?; self.es(b)?; UNIT }
            K::Ret(r) => {
                let Some(Some(t)) = self.ret.last().cloned() else { return Err("return outside a function".into()) };
                let u = match r { Some(r) => self.ex(r)?, None => UNIT };
                self.unify(&t, &u)?;
                self.here()
            }
            K::Match(t, cs) => {
                let t = self.ex(t)?;
                let r = self.here();
                for (p, b) in cs { let q = self.pat(p)?; self.unify(&t, &q)?; let b = self.es(b)?; self.unify(&r, &b)? }
                r
            }
            K::Let(ds, b) => {
                let fs: Vec<&LFun> = ds.iter().filter_map(|d| if let Def::Fun(f) = d { Some(f) } else { None }).collect();
                for f in &fs { if let Some(s) = &f.ann { self.locals.insert(f.name.1, s.clone()); } }
                let imp: Vec<&LFun> = fs.iter().copied().filter(|f| f.ann.is_none()).collect();
                let deps: Vec<BTreeSet<usize>> = imp.iter().map(|f| { let mut s = BTreeSet::new(); self.uses(&f.body, &mut |r| if let Ref::LFun(v) = r { if let Some(i) = imp.iter().position(|f| f.name.1 == v) { s.insert(i); } }); s }).collect();
                for g in scc(&deps) {
                    self.enter(&[]);
                    let l = self.level();
                    let mut tys = vec![];
                    let mut rets = vec![];
                    for i in &g { let v = self.var(l, 0); self.locals.insert(imp[*i].name.1, mono(v.clone())); rets.push(self.params(Some(&imp[*i].params), &v)?); tys.push(v) }
                    self.group.push((g.iter().map(|i| Ref::LFun(imp[*i].name.1)).collect(), vec![]));
                    for (i, r) in g.iter().zip(rets) { self.body(r, &imp[*i].body)? }
                    let q = self.common(&tys)?;
                    let (gens, preds) = self.finish(q)?;
                    for u in self.group.pop().unwrap().1 { self.inst.insert(u, gens.iter().map(|g| Ty::G(*g)).collect()); }
                    for (i, t) in g.iter().zip(&tys) { let ty = self.res(t); self.locals.insert(imp[*i].name.1, Scheme { gens: gens.clone(), preds: preds.iter().map(|p| Pred { class: p.class, args: p.args.iter().map(|t| self.res(t)).collect() }).collect(), ty }); }
                }
                for f in fs.iter().filter(|f| f.ann.is_some()) {
                    let s = f.ann.as_ref().unwrap();
                    self.enter(&s.preds);
                    let l = self.level();
                    for g in &s.gens { self.glev.insert(*g, l); }
                    let r = self.params(Some(&f.params), &s.ty)?;
                    self.body(r, &f.body)?;
                    self.finish(BTreeSet::new())?;
                }
                for d in ds { if let Def::Var(b, t, e) = d { let a = self.ex(e)?; if let Some(t) = t { self.unify(&a, t)? } self.locals.insert(b.1, mono(a)); } }
                self.es(b)?
            }
        })
    }
    fn need(&mut self, class: usize, t: &Ty) { self.sc.last_mut().unwrap().preds.push(Pred { class, args: vec![t.clone()] }) }
    fn pat(&mut self, p: &Pat) -> R<Ty> {
        Ok(match &p.k {
            P::Wild => self.here(),
            P::Var(_, q) => { let v = self.here(); self.locals.insert(p.id, mono(v.clone())); if let Some(q) = q { let t = self.pat(q)?; self.unify(&v, &t)? } v }
            P::Con(_, ps) => {
                let Ref::Con(d, k) = self.refs[&p.id] else { unreachable!() };
                if self.p.datas[d].cons[k].1.as_ref().map(|f| f.len()) != ps.as_ref().map(|p| p.len()) { return Err("another number of fields".into()) }
                let t = self.use_(p.id, self.p.con_scheme(d, k));
                match ps { None => t, Some(ps) => { let ts = ps.iter().map(|q| self.pat(q)).collect::<R<Vec<_>>>()?; let r = self.here(); self.unify(&t, &fun(ts, r.clone()))?; r } }
            }
            P::Tup(ps) => { let ts = ps.iter().map(|q| self.pat(q)).collect::<R<Vec<_>>>()?; tup(ts) }
            P::Int(..) => { let v = self.here(); self.need(NUMBER, &v); self.lit.insert(p.id, v.clone()); v }
            P::Str(_) => STR, P::Ch(_) => CHAR,
        })
    }
    fn common(&self, tys: &[Ty]) -> R<BTreeSet<usize>> {
        let l = self.level();
        let vs: Vec<BTreeSet<usize>> = tys.iter().map(|t| self.vars(std::slice::from_ref(t), l)).collect();
        let q = vs.iter().cloned().reduce(|a, b| a.intersection(&b).copied().collect()).unwrap_or_default();
        if vs.iter().any(|v| *v != q) { return Err(UNDETERMINED.into()) }
        Ok(q)
    }
    fn uses(&self, es: &[Ex], f: &mut impl FnMut(Ref)) { for e in es { let mut e = e.clone(); each(&mut e, &mut |e| if let K::Name(_) = e.k { f(self.refs[&e.id]) }) } }
}
pub fn matches(a: &Ty, b: &Ty, gens: &[usize], m: &mut BTreeMap<usize, Ty>, kind: &impl Fn(usize, &Ty) -> bool) -> bool {
    match (a, b) {
        (Ty::G(g), t) if gens.contains(g) => match m.get(g) { Some(u) => u == t, None => { if !kind(*g, t) { return false } m.insert(*g, t.clone()); true } },
        (Ty::Ap(f, x), Ty::Ap(g, y)) => x.len() == y.len() && matches(f, g, gens, m, kind) && x.iter().zip(y).all(|(a, b)| matches(a, b, gens, m, kind)),
        (a, b) => a == b,
    }
}
pub fn scc(deps: &[BTreeSet<usize>]) -> Vec<Vec<usize>> {
    let n = deps.len();
    let mut reach = vec![vec![false; n]; n];
    for i in 0..n { for j in &deps[i] { reach[i][*j] = true } }
    for k in 0..n { for i in 0..n { for j in 0..n { if reach[i][k] && reach[k][j] { reach[i][j] = true } } } }
    let mut done = vec![false; n];
    let mut out = vec![];
    while out.iter().map(Vec::len).sum::<usize>() < n {
        // a group all of whose other dependencies are done
        let i = (0..n).find(|i| !done[*i] && (0..n).all(|j| !reach[*i][j] || done[j] || reach[j][*i])).unwrap();
        let g: Vec<usize> = (0..n).filter(|j| *j == i || reach[i][*j] && reach[*j][i]).collect();
        for j in &g { done[*j] = true }
        out.push(g)
    }
    out
}
pub fn infer(p: &Prog, names: &Names) -> R<Typing> {
    let mut c = Inf { p, refs: &names.refs, sub: vec![], lev: vec![], ar: vec![], gar: p.gens.iter().map(|g| g.1).collect(), glev: HashMap::new(), locals: HashMap::new(), funs: p.funs.iter().map(|f| f.ann.clone()).collect(), inst: HashMap::new(), lit: HashMap::new(), ret: vec![], sc: vec![], group: vec![] };
    // classes are not circular
    let deps: Vec<BTreeSet<usize>> = p.classes.iter().map(|k| k.supers.iter().map(|s| s.class).collect()).collect();
    if scc(&deps).iter().any(|g| g.len() > 1) { return Err("circular classes".into()) }
    for (i, a) in p.insts.iter().enumerate() { for b in &p.insts[i + 1..] {
        if a.target.class != b.target.class { continue }
        let (n, mut ok) = (c.sub.len(), true);
        let mut f = |x: &Inst, c: &mut Inf| { let s = Scheme { gens: x.gens.clone(), preds: vec![x.target.clone()], ty: UNIT }; c.instantiate(&s, 1).1.preds[0].clone() };
        let (x, y) = (f(a, &mut c), f(b, &mut c));
        for (s, t) in x.args.iter().zip(&y.args) { if ok && c.unify(s, t).is_err() { ok = false } }
        let _ = n;
        if ok { return Err("overlapping instances".into()) }
    } }
    for i in &p.insts {
        let premise = c.close(&i.ctx);
        let m: BTreeMap<usize, Ty> = p.classes[i.target.class].gens.iter().copied().zip(i.target.args.iter().cloned()).collect();
        for s in &p.classes[i.target.class].supers { c.solve(&premise, &s.subst(&m), 0)? }
    }
    let imp: Vec<usize> = (0..p.funs.len()).filter(|f| p.funs[*f].ann.is_none()).collect();
    let deps: Vec<BTreeSet<usize>> = imp.iter().map(|f| { let mut s = BTreeSet::new(); c.uses(&p.funs[*f].body, &mut |r| if let Ref::Fun(g) = r { if let Some(i) = imp.iter().position(|x| *x == g) { s.insert(i); } }); s }).collect();
    for g in scc(&deps) {
        c.enter(&[]);
        let (mut tys, mut rets) = (vec![], vec![]);
        for i in &g { let f = imp[*i]; let v = c.here(); c.funs[f] = Some(mono(v.clone())); rets.push(c.params(p.funs[f].params.as_deref(), &v)?); tys.push(v) }
        c.group.push((g.iter().map(|i| Ref::Fun(imp[*i])).collect(), vec![]));
        for (i, r) in g.iter().zip(rets) { c.body(r, &p.funs[imp[*i]].body)? }
        let q = c.common(&tys)?;
        let (gens, preds) = c.finish(q)?;
        for u in c.group.pop().unwrap().1 { c.inst.insert(u, gens.iter().map(|g| Ty::G(*g)).collect()); }
        for (i, t) in g.iter().zip(&tys) { let ty = c.res(t); let preds = preds.iter().map(|p| Pred { class: p.class, args: p.args.iter().map(|t| c.res(t)).collect() }).collect(); c.funs[imp[*i]] = Some(Scheme { gens: gens.clone(), preds, ty }) }
    }
    for f in p.funs.iter().filter(|f| f.ann.is_some()) {
        let s = f.ann.as_ref().unwrap();
        c.enter(&s.preds);
        let r = c.params(f.params.as_deref(), &s.ty)?;
        c.body(r, &f.body)?;
        c.finish(BTreeSet::new())?;
    }
    for (k, cl) in p.classes.iter().enumerate() {
        c.enter(&[p.class_pred(k)]);
        for m in &cl.methods {
            c.enter(&m.scheme.preds);
            let l = c.level();
            for g in &m.scheme.gens { c.glev.insert(*g, l); }
            let r = c.params(m.params.as_deref(), &m.scheme.ty)?;
            if let Some(b) = &m.default { c.body(r, b)? }
            c.finish(BTreeSet::new())?;
            for g in &m.scheme.gens { c.glev.remove(g); }
        }
        c.finish(BTreeSet::new())?;
    }
    for i in &p.insts {
        c.enter(&i.ctx);
        let cl = &p.classes[i.target.class];
        let m: BTreeMap<usize, Ty> = cl.gens.iter().copied().zip(i.target.args.iter().cloned()).collect();
        for im in &i.methods {
            let me = &cl.methods[im.m];
            c.enter(&me.scheme.preds.iter().map(|p| p.subst(&m)).collect::<Vec<_>>());
            let l = c.level();
            for g in &me.scheme.gens { c.glev.insert(*g, l); }
            let r = c.params(im.params.as_deref(), &me.scheme.ty.subst(&m))?;
            c.body(r, &im.body)?;
            c.finish(BTreeSet::new())?;
            for g in &me.scheme.gens { c.glev.remove(g); }
        }
        c.finish(BTreeSet::new())?;
    }
    for e in &p.inits { c.enter(&[]); c.ret.push(None); c.ex(e)?; c.ret.pop(); c.finish(BTreeSet::new())?; }
    for v in 0..c.sub.len() { let _ = v; }
    // what is left open is the unit type
    let all: Vec<Ty> = c.inst.values().flatten().chain(c.lit.values()).cloned().chain(c.locals.values().map(|s| s.ty.clone())).chain(c.funs.iter().flatten().map(|s| s.ty.clone())).collect();
    for v in c.vars(&all, 0) { if c.ar[v] != 0 { return Err("an open type of another kind".into()) } c.sub[v] = Some(UNIT) }
    let r = |t: &Ty| c.res(t);
    Ok(Typing { funs: c.funs.iter().map(|s| { let s = s.as_ref().unwrap(); Scheme { gens: s.gens.clone(), preds: s.preds.iter().map(|p| Pred { class: p.class, args: p.args.iter().map(r).collect() }).collect(), ty: r(&s.ty) } }).collect(), inst: c.inst.iter().map(|(k, v)| (*k, v.iter().map(r).collect())).collect(), lit: c.lit.iter().map(|(k, v)| (*k, r(v))).collect(), gens: c.gar.len(), locals: c.locals.iter().map(|(k, s)| (*k, s.gens.clone())).collect() })
}

// ------------------------------------------------------------------ meaning
pub type Te = Rc<BTreeMap<usize, Ty>>;
#[derive(Clone)]
pub enum Val<'a> { I(i64), F(f64), S(Rc<str>), Ch(char), D(usize, usize, Rc<Vec<Val<'a>>>), T(Rc<Vec<Val<'a>>>), Fn(Rc<Fv<'a>>) }
pub enum Fv<'a> { Code(&'a [Bind], &'a [Ex], Env<'a>, Te), Con(usize, usize), Op(usize) }
pub enum Bd<'a> { V(Val<'a>), L(Rc<Grp<'a>>, usize) }
pub struct Grp<'a> { funs: Vec<&'a LFun>, env: Env<'a>, te: Te }
#[derive(Clone, Default)]
pub struct Env<'a>(Option<Rc<(usize, Bd<'a>, Env<'a>)>>);
pub enum Flow<'a> { Ret(Val<'a>), Fuel, None_ }
pub type E<'a, T> = Result<T, Flow<'a>>;
pub struct Run<'a> { pub p: &'a Prog, pub refs: &'a HashMap<usize, Ref>, pub ty: &'a Typing, pub cells: [i64; 8], pub fuel: usize, pub depth: usize }
impl<'a> Val<'a> {
    fn i(&self) -> i64 { if let Val::I(v) = self { *v } else { panic!("int") } }
    fn f(&self) -> f64 { if let Val::F(v) = self { *v } else { panic!("float") } }
    fn s(&self) -> &str { if let Val::S(v) = self { v } else { panic!("string") } }
    fn b(&self) -> bool { if let Val::D(0, k, _) = self { *k == 1 } else { panic!("bool") } }
}
fn boolean<'a>(b: bool) -> Val<'a> { Val::D(0, b as usize, Rc::new(vec![])) }
fn unit<'a>() -> Val<'a> { Val::T(Rc::new(vec![])) }
fn bind<'a>(env: &Env<'a>, id: usize, b: Bd<'a>) -> Env<'a> { Env(Some(Rc::new((id, b, env.clone())))) }
impl<'a> Run<'a> {
    pub fn new(p: &'a Prog, names: &'a Names, ty: &'a Typing) -> Self { Run { p, refs: &names.refs, ty, cells: [0; 8], fuel: 20000, depth: 0 } }
    fn num(&self, t: &Ty, te: &Te, neg: bool, v: u64) -> Val<'a> {
        let s = if neg { (v as i64).wrapping_neg() } else { v as i64 };
        match t.subst(te) { Ty::C("F64") => Val::F(if neg { -(v as f64) } else { v as f64 }), Ty::C("F32") => panic!("F32"), Ty::C("I32") => Val::I(s as i32 as i64), _ => Val::I(s) }
    }
    pub fn es(&mut self, es: &'a [Ex], env: &Env<'a>, te: &Te) -> E<'a, Val<'a>> { let mut v = unit(); for e in es { v = self.ex(e, env, te)? } Ok(v) }
    fn tys(&self, id: usize, te: &Te) -> Vec<Ty> { self.ty.inst.get(&id).map_or(vec![], |v| v.iter().map(|t| t.subst(te)).collect()) }
    fn code(&mut self, ps: &'a Option<Vec<Bind>>, body: &'a [Ex], te: Te) -> E<'a, Val<'a>> {
        match ps { Some(ps) => Ok(Val::Fn(Rc::new(Fv::Code(ps, body, Env::default(), te)))), None => self.call(&Fv::Code(&[], body, Env::default(), te), vec![]) }
    }
    pub fn ex(&mut self, e: &'a Ex, env: &Env<'a>, te: &Te) -> E<'a, Val<'a>> {
        if self.fuel == 0 || self.depth > 400 { return Err(Flow::Fuel) }
        self.fuel -= 1;
        Ok(match &e.k {
            K::Name(_) => match self.refs[&e.id] {
                Ref::Local(v) => { let mut n = env; loop { let x = n.0.as_ref().unwrap(); if x.0 == v { let Bd::V(v) = &x.1 else { panic!() }; break v.clone() } n = &x.2 } }
                Ref::LFun(v) => {
                    let mut n = env;
                    loop { let x = n.0.as_ref().unwrap(); if x.0 == v {
                        let Bd::L(g, i) = &x.1 else { panic!() };
                        let f = g.funs[*i];
                        let tys = self.tys(e.id, te);
                        let gens = match &f.ann { Some(s) => s.gens.clone(), None => self.ty.locals.get(&v).cloned().unwrap_or_default() };
                        let mut m = (*g.te).clone();
                        // a use inside its own group is at its own type
                        for (g, t) in gens.iter().zip(tys) { m.insert(*g, t); }
                        let mut env = g.env.clone();
                        for (j, f) in g.funs.iter().enumerate() { env = bind(&env, f.name.1, Bd::L(g.clone(), j)) }
                        break Val::Fn(Rc::new(Fv::Code(&f.params, &f.body, env, Rc::new(m))))
                    } n = &x.2 }
                }
                Ref::Fun(f) => { let s = &self.ty.funs[f]; let m = s.gens.iter().copied().zip(self.tys(e.id, te)).collect(); let f = &self.p.funs[f]; self.code(&f.params, &f.body, Rc::new(m))? }
                Ref::Op(o) => Val::Fn(Rc::new(Fv::Op(o))),
                Ref::Con(d, k) => if self.p.datas[d].cons[k].1.is_none() { Val::D(d, k, Rc::new(vec![])) } else { Val::Fn(Rc::new(Fv::Con(d, k))) },
                Ref::Method(c, m) => {
                    let tys = self.tys(e.id, te);
                    let cl = &self.p.classes[c];
                    let n = cl.gens.len();
                    let me = &cl.methods[m];
                    let mut te: BTreeMap<usize, Ty> = me.scheme.gens.iter().copied().zip(tys[n..].iter().cloned()).collect();
                    let (i, im) = self.p.insts.iter().filter(|i| i.target.class == c).find_map(|i| { let mut mm = BTreeMap::new(); if i.target.args.iter().zip(&tys[..n]).all(|(a, b)| matches(a, b, &i.gens, &mut mm, &|_, _| true)) { Some((i, mm)) } else { None } }).expect("an instance");
                    match i.methods.iter().find(|x| x.m == m) {
                        Some(x) => { te.extend(im); self.code(&x.params, &x.body, Rc::new(te))? }
                        None => { te.extend(cl.gens.iter().copied().zip(tys[..n].iter().cloned())); self.code(&me.params, me.default.as_ref().unwrap(), Rc::new(te))? }
                    }
                }
                _ => unreachable!(),
            },
            K::Int(s, v) => self.num(&self.ty.lit[&e.id], te, *s, *v), K::Fp(f) => Val::F(*f), K::Str(s) => Val::S(s.as_str().into()), K::Ch(c) => Val::Ch(*c), K::Unit => unit(),
            K::Tup(es) => { let v = es.iter().map(|e| self.ex(e, env, te)).collect::<E<Vec<_>>>()?; Val::T(Rc::new(v)) }
            K::App(f, a) => {
                if let (K::Name(_), [x, y]) = (&f.k, &a[..]) { if let Ref::Op(o) = self.refs[&f.id] { if self.p.ops[o].lazy {
                    let l = self.ex(x, env, te)?.b();
                    return Ok(boolean(if self.p.ops[o].name == "and" { l && self.ex(y, env, te)?.b() } else { l || self.ex(y, env, te)?.b() }))
                } } }
                // what is called is computed last
                let a = a.iter().map(|e| self.ex(e, env, te)).collect::<E<Vec<_>>>()?;
                let f = self.ex(f, env, te)?;
                let Val::Fn(f) = f else { panic!("call") };
                self.call(&f, a)?
            }
            K::Ann(e, _) => self.ex(e, env, te)?,
            K::Seq(es) => self.es(es, env, te)?,
            K::If(a, b, c) => if self.ex(a, env, te)?.b() { self.ex(b, env, te)? } else { self.ex(c, env, te)? },
            K::While(c, b) => { while self.ex(c, env, te)?.b() { self.es(b, env, te)?; } unit() }
            K::Ret(r) => { let v = match r { Some(r) => self.ex(r, env, te)?, None => unit() }; return Err(Flow::Ret(v)) }
            K::Match(t, cs) => {
                let v = self.ex(t, env, te)?;
                for (p, b) in cs { let mut env = env.clone(); if self.pat(p, &v, &mut env, te) { return self.es(b, &env, te) } }
                return Err(Flow::None_)
            }
            K::Let(ds, b) => {
                let funs: Vec<&'a LFun> = ds.iter().filter_map(|d| if let Def::Fun(f) = d { Some(f) } else { None }).collect();
                let g = Rc::new(Grp { funs, env: env.clone(), te: te.clone() });
                let mut inner = env.clone();
                for (j, f) in g.funs.iter().enumerate() { inner = bind(&inner, f.name.1, Bd::L(g.clone(), j)) }
                let mut out = inner.clone();
                for d in ds { if let Def::Var(b, _, e) = d { let v = self.ex(e, &inner, te)?; out = bind(&out, b.1, Bd::V(v)) } }
                self.es(b, &out, te)?
            }
        })
    }
    fn call(&mut self, f: &Fv<'a>, a: Vec<Val<'a>>) -> E<'a, Val<'a>> {
        match f {
            Fv::Code(ps, body, env, te) => {
                let mut env = env.clone();
                for (p, v) in ps.iter().zip(a) { env = bind(&env, p.1, Bd::V(v)) }
                self.depth += 1;
                let r = self.es(body, &env, te);
                self.depth -= 1;
                match r { Err(Flow::Ret(v)) => Ok(v), r => r }
            }
            Fv::Con(d, k) => Ok(Val::D(*d, *k, Rc::new(a))),
            Fv::Op(o) => Ok(match self.p.ops[*o].name {
                "i64+" => Val::I(a[0].i().wrapping_add(a[1].i())), "i64-" => Val::I(a[0].i().wrapping_sub(a[1].i())), "i64*" => Val::I(a[0].i().wrapping_mul(a[1].i())), "i64<" | "i32<" => boolean(a[0].i() < a[1].i()), "i64=" => boolean(a[0].i() == a[1].i()),
                "i32+" => Val::I((a[0].i() as i32).wrapping_add(a[1].i() as i32) as i64), "f64+" => Val::F(a[0].f() + a[1].f()), "f64*" => Val::F(a[0].f() * a[1].f()), "f64<" => boolean(a[0].f() < a[1].f()),
                "str++" => { let n = a[0].s().len() + a[1].s().len(); if n > 1 << 16 { return Err(Flow::Fuel) } Val::S(format!("{}{}", a[0].s(), a[1].s()).as_str().into()) } "str=" => boolean(a[0].s() == a[1].s()), "strlen" => Val::I(a[0].s().len() as i64),
                "and" => boolean(a[0].b() && a[1].b()), "or" => boolean(a[0].b() || a[1].b()), "not" => boolean(!a[0].b()), "i32>i64" => Val::I(a[0].i()),
                // cells are few: others are not touched
                "get" => { let k = a[0].i(); if !(0..8).contains(&k) { return Err(Flow::Fuel) } Val::I(self.cells[k as usize]) }
                "put" => { let k = a[0].i(); if !(0..8).contains(&k) { return Err(Flow::Fuel) } self.cells[k as usize] = a[1].i(); unit() }
                "tick" => { self.cells[0] = self.cells[0].wrapping_mul(31).wrapping_add(a[0].i()); a[0].clone() }
                _ => unreachable!(),
            }),
        }
    }
    fn pat(&mut self, p: &'a Pat, v: &Val<'a>, env: &mut Env<'a>, te: &Te) -> bool {
        match (&p.k, v) {
            (P::Wild, _) => true,
            (P::Var(_, q), v) => { *env = bind(env, p.id, Bd::V(v.clone())); q.as_ref().map_or(true, |q| self.pat(q, v, env, te)) }
            (P::Con(_, ps), Val::D(d, k, vs)) => { if self.refs[&p.id] != Ref::Con(*d, *k) { return false } ps.iter().flatten().zip(vs.iter()).all(|(q, v)| self.pat(q, v, env, te)) }
            (P::Tup(ps), Val::T(vs)) => ps.iter().zip(vs.iter()).all(|(q, v)| self.pat(q, v, env, te)),
            (P::Int(s, n), v) => match (self.num(&self.ty.lit[&p.id], te, *s, *n), v) { (Val::I(a), Val::I(b)) => a == *b, (Val::F(a), Val::F(b)) => a == *b, _ => panic!("pattern") },
            (P::Str(s), Val::S(t)) => **s == **t,
            (P::Ch(c), Val::Ch(d)) => c == d,
            _ => panic!("pattern"),
        }
    }
}
/// Whether finitely (and few) many instances of functions suffice, and none is inlined for ever.
pub fn finite(p: &Prog, names: &Names, ty: &Typing) -> bool {
    type Node = (u8, usize, usize, BTreeMap<usize, Ty>);
    let mut lfuns: HashMap<usize, LFun> = HashMap::new();
    for b in p.bodies() { for e in b { each(&mut e.clone(), &mut |e| if let K::Let(ds, _) = &e.k { for d in ds { if let Def::Fun(f) = d { lfuns.insert(f.name.1, f.clone()); } } }) } }
    let mut seen: BTreeSet<Node> = BTreeSet::new();
    let mut todo: Vec<(Vec<Ex>, BTreeMap<usize, Ty>)> = vec![(p.inits.clone(), BTreeMap::new())];
    while let Some((body, te)) = todo.pop() {
        let mut uses = vec![];
        for mut e in body { let mut stack = vec![]; shallow(&mut e, &mut |e| stack.push((e.id, matches!(e.k, K::Name(_))))); for (id, n) in stack { if n { uses.push(id) } } }
        for id in uses {
            let tys: Vec<Ty> = ty.inst.get(&id).map_or(vec![], |v| v.iter().map(|t| t.subst(&te)).collect());
            if tys.iter().any(|t| t.size() > 60) { return false }
            let zip = |g: &[usize], t: &[Ty]| -> BTreeMap<usize, Ty> { g.iter().copied().zip(t.iter().cloned()).collect() };
            let (node, body): (Node, Vec<Ex>) = match names.refs[&id] {
                Ref::Fun(f) => ((0, f, 0, zip(&ty.funs[f].gens, &tys)), p.funs[f].body.clone()),
                Ref::LFun(v) => { let f = &lfuns[&v]; let g = match &f.ann { Some(s) => s.gens.clone(), None => ty.locals.get(&v).cloned().unwrap_or_default() }; let mut m = te.clone(); m.extend(zip(&g, &tys)); ((1, v, 0, m), f.body.clone()) }
                Ref::Method(c, m) => {
                    let cl = &p.classes[c];
                    let n = cl.gens.len();
                    let Some((k, im)) = p.insts.iter().enumerate().filter(|i| i.1.target.class == c).find_map(|(k, i)| { let mut mm = BTreeMap::new(); if i.target.args.iter().zip(&tys[..n]).all(|(a, b)| matches(a, b, &i.gens, &mut mm, &|_, _| true)) { Some((k, mm)) } else { None } }) else { return false };
                    let mut m2 = zip(&cl.methods[m].scheme.gens, &tys[n..]);
                    match p.insts[k].methods.iter().find(|x| x.m == m) {
                        Some(x) => { m2.extend(im); ((2, k, m, m2), x.body.clone()) }
                        None => { m2.extend(zip(&cl.gens, &tys[..n])); ((3, c, m, m2), cl.methods[m].default.clone().unwrap_or_default()) }
                    }
                }
                _ => continue,
            };
            if seen.insert(node.clone()) { if seen.len() > 300 { return false } todo.push((body, node.3)) }
        }
    }
    // a cycle of functions that are all inlined
    let mut items: Vec<(Ref, Vec<Ex>)> = p.funs.iter().enumerate().filter(|f| f.1.transparent).map(|(i, f)| (Ref::Fun(i), f.body.clone())).collect();
    for i in &p.insts { for m in &i.methods { if m.transparent { items.push((Ref::Method(i.target.class, m.m), m.body.clone())) } } }
    let deps: Vec<BTreeSet<usize>> = items.iter().map(|(_, b)| { let mut s = BTreeSet::new(); for e in b { each(&mut e.clone(), &mut |e| if let K::Name(_) = e.k { for (k, i) in items.iter().enumerate() { if i.0 == names.refs[&e.id] { s.insert(k); } } }) } s }).collect();
    scc(&deps).iter().all(|g| g.len() == 1 && !deps[g[0]].contains(&g[0]))
}
/// Like `each`, but not inside local functions.
fn shallow(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
    if let K::Let(ds, _) = &mut e.k { for d in ds { if let Def::Fun(l) = d { l.body.clear() } } }
    f(e);
    match &mut e.k {
        K::Tup(es) | K::Seq(es) => for e in es { shallow(e, f) },
        K::App(g, a) => { shallow(g, f); for e in a { shallow(e, f) } }
        K::Let(ds, b) => { for d in ds { if let Def::Var(_, _, e) = d { shallow(e, f) } } for e in b { shallow(e, f) } }
        K::If(a, b, c) => { shallow(a, f); shallow(b, f); shallow(c, f) }
        K::While(c, b) => { shallow(c, f); for e in b { shallow(e, f) } }
        K::Match(t, cs) => { shallow(t, f); for (_, b) in cs { for e in b { shallow(e, f) } } }
        K::Ret(Some(e)) | K::Ann(e, _) => shallow(e, f),
        _ => {}
    }
}
