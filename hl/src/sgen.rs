//! Generates programs of the surface language, mostly well-typed ones.
#![cfg(not(kani))]
use crate::surf::*;
use kit::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
struct Loc { name: String, s: Scheme, fun: bool }
pub struct Gen<'s, S: Src> {
    pub s: &'s mut S, pub p: Prog, locs: Vec<Loc>, gens: Vec<usize>, prem: Vec<Pred>, ret: Option<Ty>,
    /// Top-level functions that may be used, and those that count down.
    funs: Vec<(String, Scheme)>, rec: Vec<(String, Vec<Ty>, Ty)>, depth: usize, budget: i64,
}
const POOL: [&str; 6] = ["x", "y", "z", "f", "g", "h"];
fn pick<'a, T, S: Src>(s: &mut S, v: &'a [T]) -> &'a T { &v[s.below(v.len() as u64) as usize] }
pub fn ex(k: K) -> Ex { Ex { id: 0, k } }
pub fn name(n: &str) -> Ex { ex(K::Name(n.into())) }
pub fn call(n: &str, a: Vec<Ex>) -> Ex { ex(K::App(Box::new(name(n)), a)) }
fn pt(k: P) -> Pat { Pat { id: 0, k } }
fn int(v: i64) -> Ex { ex(K::Int(v < 0, v.unsigned_abs())) }
impl<S: Src> Gen<'_, S> {
    pub fn new(s: &mut S) -> Gen<'_, S> { Gen { s, p: empty(), locs: vec![], gens: vec![], prem: vec![], ret: None, funs: vec![], rec: vec![], depth: 0, budget: 3000 } }
    fn one(&mut self, n: u64) -> bool { self.s.below(n) == 0 }
    // ---- types
    pub fn ty(&mut self, d: usize) -> Ty {
        let k = if d == 0 { self.s.below(9) } else { self.s.below(18) };
        match k {
            0..=2 => I64, 3 => I32, 4 => F64, 5 => STR, 6 => CHAR, 7 => BOOL, 8 if self.gens.is_empty() => UNIT,
            8..=10 => { let gs: Vec<usize> = self.gens.iter().copied().filter(|g| self.p.gens[*g].1 == 0).collect(); if gs.is_empty() { I64 } else { Ty::G(*pick(self.s, &gs)) } }
            11 | 12 => { let n = 2 + self.s.below(2) as usize; tup((0..n).map(|_| self.ty(d - 1)).collect()) }
            13 => { let n = self.s.below(3) as usize; let a = (0..n).map(|_| self.ty(d - 1)).collect(); let r = self.ty(d - 1); fun(a, r) }
            14 => { let gs: Vec<usize> = self.gens.iter().copied().filter(|g| self.p.gens[*g].1 == 1).collect(); if gs.is_empty() { ap(Ty::D(OPTION), vec![self.ty(d - 1)]) } else { let g = *pick(self.s, &gs); ap(Ty::G(g), vec![self.ty(d - 1)]) } }
            _ => { let i = 1 + self.s.below(self.p.datas.len() as u64 - 1) as usize; let n = self.p.datas[i].gens.len(); ap(Ty::D(i), (0..n).map(|_| self.ty(d - 1)).collect()) }
        }
    }
    fn holds(&self, p: &Pred, d: usize) -> bool {
        if self.prem.contains(p) { return true }
        d > 0 && self.p.insts.iter().any(|i| { let mut m = BTreeMap::new(); i.target.class == p.class && i.target.args.iter().zip(&p.args).all(|(a, b)| matches(a, b, &i.gens, &mut m, &|g, t| self.p.gens[g].1 == self.p.arity(t))) && i.ctx.iter().all(|c| self.holds(&c.subst(&m), d - 1)) })
    }
    fn close(&self, p: &Pred) -> Vec<Pred> {
        let c = &self.p.classes[p.class];
        let m: BTreeMap<usize, Ty> = c.gens.iter().copied().zip(p.args.iter().cloned()).collect();
        let mut v = vec![p.clone()];
        for s in &c.supers { v.extend(self.close(&s.subst(&m))) }
        v
    }
    // ---- expressions
    fn small(&mut self) -> i64 { self.s.below(8) as i64 - 1 }
    fn leaf(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        Some(match t {
            Ty::C("I64") => { if self.one(12) { int(*pick(self.s, &[i64::MAX, i64::MIN + 1, 1 << 40, -(1 << 31)])) } else { let v = self.small(); if self.one(4) { call("tick", vec![int(v)]) } else { int(v) } } }
            Ty::C("I32") => int(self.small()),
            Ty::C("F64") => ex(K::Fp(*pick(self.s, &[0.0, 1.5, -2.25, 1e10, 0.1]))),
            Ty::C("String") => ex(K::Str(pick(self.s, &["", "a", "bc", "a bc"]).to_string())),
            Ty::C("Char") => ex(K::Ch(*pick(self.s, &['a', 'b', 'z']))),
            Ty::D(0) => name(pick(self.s, &["#t", "#f"])),
            Ty::Tup(0) => ex(K::Unit),
            Ty::Ap(h, a) => match **h {
                Ty::Tup(_) => { let mut v = vec![]; let n = a.len(); for t in a { v.push(self.gen(t, fuel / n)?) } ex(K::Tup(v)) }
                Ty::Fun(_) => { let (ps, r) = t.as_fun()?; let (ps, r) = (ps.to_vec(), r.clone()); self.lambda(&ps, &r, fuel)? }
                Ty::D(d) => self.con(d, a.clone(), fuel)?,
                _ => return self.other(t, fuel),
            },
            Ty::D(d) => self.con(*d, vec![], fuel)?,
            _ => return self.other(t, fuel),
        })
    }
    fn other(&mut self, _: &Ty, _: usize) -> Option<Ex> { None }
    fn con(&mut self, d: usize, args: Vec<Ty>, fuel: usize) -> Option<Ex> {
        let n = self.p.datas[d].cons.len();
        if n == 0 { return None }
        let m: BTreeMap<usize, Ty> = self.p.datas[d].gens.iter().copied().zip(args).collect();
        let first = self.s.below(n as u64) as usize;
        for k in (first..n).chain(0..first) {
            let (c, f) = self.p.datas[d].cons[k].clone();
            match f {
                None => return Some(name(&c)),
                Some(fs) => {
                    if fuel < 2 && k + 1 < first + n && self.p.datas[d].cons.iter().any(|c| c.1.is_none()) { continue }
                    let mut v = vec![];
                    let k = fs.len().max(1);
                    let ok = fs.iter().all(|t| match self.gen(&t.subst(&m), fuel.saturating_sub(1) / k) { Some(e) => { v.push(e); true } None => false });
                    if ok { return Some(call(&c, v)) }
                }
            }
        }
        None
    }
    fn fresh(&mut self) -> String { pick(self.s, &POOL).to_string() }
    fn binds(&mut self, n: usize) -> Vec<String> { let k = self.s.below(6) as usize; (0..n).map(|i| POOL[(k + i) % 6].to_string()).collect() }
    fn with<T>(&mut self, ls: Vec<Loc>, f: impl FnOnce(&mut Self) -> T) -> T { let n = self.locs.len(); self.locs.extend(ls); let r = f(self); self.locs.truncate(n); r }
    fn lambda(&mut self, ps: &[Ty], r: &Ty, fuel: usize) -> Option<Ex> {
        let f = self.fresh();
        let bs = self.binds(ps.len());
        let body = self.code(&bs, ps, r, fuel)?;
        let ann = if self.one(3) { Some(mono(fun(ps.to_vec(), r.clone()))) } else { None };
        Some(ex(K::Let(vec![Def::Fun(LFun { name: (f.clone(), 0), params: bs.into_iter().map(|b| (b, 0)).collect(), ann, body })], vec![name(&f)])))
    }
    fn code(&mut self, bs: &[String], ps: &[Ty], r: &Ty, fuel: usize) -> Option<Vec<Ex>> {
        let ls = bs.iter().zip(ps).map(|(b, t)| Loc { name: b.clone(), s: mono(t.clone()), fun: false }).collect();
        let old = self.ret.replace(r.clone());
        let v = self.with(ls, |c| c.block(r, fuel));
        self.ret = old;
        v
    }
    fn block(&mut self, t: &Ty, fuel: usize) -> Option<Vec<Ex>> {
        let mut v = vec![];
        if fuel > 3 && self.one(4) { let t = if self.one(2) { UNIT } else { self.ty(1) }; if let Some(e) = self.gen(&t, fuel / 3) { v.push(e) } }
        v.push(self.gen(t, fuel)?);
        Some(v)
    }
    fn unify(pat: &Ty, t: &Ty, gens: &[usize], m: &mut BTreeMap<usize, Ty>) -> bool { matches(pat, t, gens, m, &|_, _| true) }
    /// A use of something that has (or returns) the type.
    fn used(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        let mut cs: Vec<(String, Scheme, bool)> = vec![];
        let mut seen = BTreeSet::new();
        for l in self.locs.iter().rev() { if seen.insert(l.name.clone()) { cs.push((l.name.clone(), l.s.clone(), true)); if !l.fun { cs.push((l.name.clone(), l.s.clone(), true)) } } }
        for (n, s) in &self.funs { cs.push((n.clone(), s.clone(), false)); cs.push((n.clone(), s.clone(), false)) }
        for o in &self.p.ops { cs.push((o.name.to_string(), o.scheme.clone(), false)) }
        for d in 0..self.p.datas.len() { for k in 0..self.p.datas[d].cons.len() { if self.one(4) { cs.push((self.p.datas[d].cons[k].0.clone(), self.p.con_scheme(d, k), false)) } } }
        for c in 0..self.p.classes.len() { for m in 0..self.p.classes[c].methods.len() { for _ in 0..2 { cs.push((self.p.classes[c].methods[m].name.clone(), self.p.method_scheme(c, m), false)) } } }
        let mut fit = vec![];
        for (n, s, local) in cs {
            if !local && seen.contains(&n) { continue }
            let mut m = BTreeMap::new();
            if Self::unify(&s.ty, t, &s.gens, &mut m) { fit.push((n.clone(), s.clone(), m, false)); if local { let m = fit.last().unwrap().2.clone(); fit.push((n.clone(), s.clone(), m, false)) } }
            let mut m = BTreeMap::new();
            if fuel > 1 { if let Some((_, r)) = s.ty.as_fun() { if !matches!(r, Ty::G(_)) || !self.one(3) { if Self::unify(r, t, &s.gens, &mut m) { fit.push((n, s.clone(), m, true)) } } } }
        }
        for _ in 0..3 {
            if fit.is_empty() { return None }
            let (n, s, mut m, applied) = pick(self.s, &fit).clone();
            for g in &s.gens { if !m.contains_key(g) {
                if self.p.gens[*g].1 != 0 { let is: Vec<Ty> = self.p.insts.iter().filter(|i| s.preds.iter().any(|p| p.class == i.target.class && p.args[0] == Ty::G(*g))).map(|i| i.target.args[0].clone()).collect(); if is.is_empty() { m.insert(*g, Ty::D(OPTION)); } else { let t = pick(self.s, &is).clone(); m.insert(*g, t); } }
                else { let t = self.ty(1); m.insert(*g, t); }
            } }
            if !s.preds.iter().all(|p| self.holds(&p.subst(&m), 5)) { continue }
            if !applied { return Some(name(&n)) }
            let (ps, _) = s.ty.as_fun().unwrap();
            let k = ps.len().max(1);
            let mut v = vec![];
            if (n == "put" || n == "get") && !self.locs.iter().any(|l| l.name == n) { let i = self.s.below(3) as i64; v.push(int(i)) }
            let skip = v.len();
            if ps[skip..].iter().all(|t| match self.gen(&t.subst(&m), fuel.saturating_sub(1) / k) { Some(e) => { v.push(e); true } None => false }) { return Some(call(&n, v)) }
        }
        None
    }
    pub fn gen(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        self.budget -= 1;
        if self.depth > 14 || self.budget < -3000 { return None }
        self.depth += 1;
        let r = self.gen_(t, fuel);
        self.depth -= 1;
        r
    }
    fn gen_(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        if self.budget < 0 { return self.leaf(t, 1) }
        if fuel <= 1 {
            let hit: Option<Ex> = if self.one(4) { None } else { self.used(t, 1) };
            if hit.is_some() { return hit }
            return self.leaf(t, 1).or_else(|| self.used(t, 3))
        }
        let e = match self.s.below(20) {
            0..=5 => self.used(t, fuel),
            6 => { let c = self.gen(&BOOL, fuel / 3)?; let a = self.gen(t, fuel / 3)?; let b = self.gen(t, fuel / 3)?; Some(ex(K::If(Box::new(c), Box::new(a), Box::new(b)))) }
            7..=9 => self.let_(t, fuel),
            10 | 11 => self.match_(t, fuel),
            12 => { let u = self.ty(1); let a = self.gen(&u, fuel / 3)?; let b = self.gen(t, fuel / 2)?; Some(ex(K::Seq(vec![a, b]))) }
            13 => { let e = self.gen(t, fuel - 1)?; Some(ex(K::Ann(Box::new(e), t.clone()))) }
            14 => match self.ret.clone() {
                Some(r) => { let c = self.gen(&BOOL, fuel / 3)?; let v = if r == UNIT && self.one(2) { None } else { Some(Box::new(self.gen(&r, fuel / 3)?)) }; let e = self.gen(t, fuel / 3)?; let back = ex(K::Ret(v));
                    Some(if self.one(2) { ex(K::If(Box::new(c), Box::new(back), Box::new(e))) } else { ex(K::Seq(vec![ex(K::If(Box::new(c), Box::new(ex(K::Seq(vec![back]))), Box::new(ex(K::Unit)))), e])) }) }
                None => None,
            },
            15 if *t == UNIT || self.one(3) => {
                // a loop that counts a cell of its own down
                let k = 3 + self.s.below(4) as i64;
                if ["get", "put", "i64<", "i64-"].iter().any(|n| self.locs.iter().any(|l| l.name == *n)) { return None }
                let n = self.s.below(4) as i64;
                let u = self.ty(1);
                let b = self.gen(&u, fuel / 3)?;
                let w = ex(K::While(Box::new(call("i64<", vec![int(0), call("get", vec![int(k)])])), vec![call("put", vec![int(k), call("i64-", vec![call("get", vec![int(k)]), int(1)])]), b]));
                let mut v = vec![call("put", vec![int(k), int(n)]), w];
                if *t != UNIT { v.push(self.gen(t, fuel / 3)?) }
                Some(ex(K::Seq(v)))
            }
            16 | 17 => {
                let rs: Vec<(String, Vec<Ty>, Ty)> = self.rec.iter().filter(|r| r.2 == *t && !self.locs.iter().any(|l| l.name == r.0)).cloned().collect();
                if rs.is_empty() { None } else {
                    let (n, ps, _) = pick(self.s, &rs).clone();
                    let mut v = vec![call("i64-", vec![name("n"), int(1)])];
                    for p in &ps[1..] { v.push(self.gen(p, fuel / 3)?) }
                    Some(call(&n, v))
                }
            }
            _ => self.leaf(t, fuel),
        };
        e.or_else(|| self.leaf(t, fuel / 2)).or_else(|| self.used(t, 2))
    }
    fn let_(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        let n = 1 + self.s.below(3) as usize;
        let bs = self.binds(n);
        let mut ds = vec![];
        let mut locs = vec![];
        // functions first: they are visible in all of the definitions
        let kinds: Vec<bool> = (0..n).map(|_| self.one(2)).collect();
        let mut fl = vec![];
        for (b, f) in bs.iter().zip(&kinds) { if *f {
            let np = self.s.below(3) as usize;
            let generic = self.one(3);
            let (mut gs, old) = (vec![], (self.gens.clone(), self.prem.clone()));
            let mut preds = vec![];
            let ann = !self.one(3);
            if generic {
                let g = self.p.gen(["P", "Q"][self.s.below(2) as usize], 0);
                if !self.gens.iter().any(|h| self.p.gens[*h].0 == self.p.gens[g].0) { gs.push(g); self.gens.push(g); if ann && self.one(2) { let cs: Vec<usize> = self.simple_classes(); if !cs.is_empty() { preds.push(Pred { class: *pick(self.s, &cs), args: vec![Ty::G(g)] }) } } }
            }
            for p in &preds { let c = self.close(p); self.prem.extend(c) }
            let ps: Vec<Ty> = (0..np).map(|_| self.ty(1)).collect();
            let r = self.ty(1);
            let pb = self.binds(np);
            // names of this let do not fall back to what they shadow
            let hidden: Vec<Loc> = bs.iter().zip(&kinds).filter(|(_, f)| **f).map(|(b, _)| Loc { name: b.clone(), s: mono(Ty::C("hidden")), fun: false }).collect();
            let body = self.with(hidden, |c| c.with(fl.clone(), |c| c.code(&pb, &ps, &r, fuel / (n + 1))));
            self.gens = old.0;
            self.prem = old.1;
            let s = Scheme { gens: gs, preds, ty: fun(ps, r) };
            fl.push(Loc { name: b.clone(), s: s.clone(), fun: true });
            ds.push(Def::Fun(LFun { name: (b.clone(), 0), params: pb.into_iter().map(|b| (b, 0)).collect(), ann: if ann { Some(s) } else { None }, body: body? }))
        } }
        for (b, f) in bs.iter().zip(&kinds) { if !*f {
            let u = self.ty(2);
            let hidden: Vec<Loc> = fl.clone();
            let e = self.with(hidden, |c| c.gen(&u, fuel / (n + 1)))?;
            locs.push(Loc { name: b.clone(), s: mono(u.clone()), fun: false });
            let ann = if self.one(4) { Some(u) } else { None };
            let at = self.s.below(ds.len() as u64 + 1) as usize;
            // variables are evaluated in order
            let _ = at;
            ds.push(Def::Var((b.clone(), 0), ann, e))
        } }
        locs.extend(fl);
        let b = self.with(locs, |c| c.block(t, fuel / 2))?;
        Some(ex(K::Let(ds, b)))
    }
    fn simple_classes(&self) -> Vec<usize> { (BUILTIN_CLASSES..self.p.classes.len()).filter(|c| self.p.classes[*c].gens.len() == 1 && self.p.gens[self.p.classes[*c].gens[0]].1 == 0).collect() }
    fn match_(&mut self, t: &Ty, fuel: usize) -> Option<Ex> {
        let u = self.ty(2);
        let e = self.gen(&u, fuel / 3)?;
        let n = 1 + self.s.below(3) as usize;
        let mut cs = vec![];
        // each constructor in turn, then whatever is left
        let heads = match &u { Ty::D(d) => self.p.datas[*d].cons.len(), Ty::Ap(h, _) => if let Ty::D(d) = **h { self.p.datas[d].cons.len() } else { 0 }, _ => 0 };
        let whole = heads > 0 && !self.one(4);
        let first = self.s.below(heads.max(1) as u64) as usize;
        for i in 0..if whole { heads } else { n } {
            let last = !whole && i + 1 == n;
            let mut bs = vec![];
            let p = if whole { self.head(&u, (first + i) % heads, &mut bs)? } else if last { self.any(&u, &mut bs) } else { self.pat(&u, 2, &mut bs) };
            let mut names = BTreeSet::new();
            if !bs.iter().all(|(n, _): &(String, Ty)| names.insert(n.clone())) { return None }
            let ls = bs.into_iter().map(|(n, t)| Loc { name: n, s: mono(t), fun: false }).collect();
            let b = self.with(ls, |c| c.block(t, fuel / (n + 1)))?;
            cs.push((p, b));
        }
        Some(ex(K::Match(Box::new(e), cs)))
    }
    fn any(&mut self, t: &Ty, bs: &mut Vec<(String, Ty)>) -> Pat { if self.one(2) { pt(P::Wild) } else { let n = self.fresh(); bs.push((n.clone(), t.clone())); pt(P::Var(n, None)) } }
    fn head(&mut self, t: &Ty, k: usize, bs: &mut Vec<(String, Ty)>) -> Option<Pat> {
        let (d, a) = match t { Ty::D(d) => (*d, vec![]), Ty::Ap(h, a) => if let Ty::D(d) = **h { (d, a.clone()) } else { return None }, _ => return None };
        let m: BTreeMap<usize, Ty> = self.p.datas[d].gens.iter().copied().zip(a).collect();
        let (c, f) = self.p.datas[d].cons[k].clone();
        if self.locs.iter().any(|l| l.name == c) { return None }
        Some(pt(P::Con(c, f.map(|fs| fs.iter().map(|t| self.any(&t.subst(&m), bs)).collect()))))
    }
    fn pat(&mut self, t: &Ty, d: usize, bs: &mut Vec<(String, Ty)>) -> Pat {
        if d == 0 || self.one(4) { return self.any(t, bs) }
        if self.one(8) { let n = self.fresh(); bs.push((n.clone(), t.clone())); return pt(P::Var(n, Some(Box::new(self.pat(t, d - 1, bs))))) }
        match t {
            Ty::C("I64" | "I32") => { let v = self.small(); pt(P::Int(v < 0, v.unsigned_abs())) }
            Ty::C("String") => pt(P::Str(pick(self.s, &["", "a", "bc", "a bc"]).to_string())),
            Ty::C("Char") => pt(P::Ch(*pick(self.s, &['a', 'b', 'z']))),
            Ty::Ap(h, a) if matches!(**h, Ty::Tup(_)) => { let a = a.clone(); pt(P::Tup(a.iter().map(|t| self.pat(t, d - 1, bs)).collect())) }
            Ty::D(_) | Ty::Ap(..) => {
                let (k, a) = match t { Ty::D(k) => (*k, vec![]), Ty::Ap(h, a) => if let Ty::D(k) = **h { (k, a.clone()) } else { return self.any(t, bs) }, _ => unreachable!() };
                let m: BTreeMap<usize, Ty> = self.p.datas[k].gens.iter().copied().zip(a).collect();
                if self.p.datas[k].cons.is_empty() { return self.any(t, bs) }
                let (c, f) = pick(self.s, &self.p.datas[k].cons).clone();
                pt(P::Con(c, f.map(|fs| fs.iter().map(|t| self.pat(&t.subst(&m), d - 1, bs)).collect())))
            }
            _ => self.any(t, bs),
        }
    }
    // ---- declarations
    fn datas(&mut self) {
        for i in 0..self.s.below(3) {
            let value = self.one(3);
            let n = self.s.below(3) as usize;
            let gens: Vec<usize> = (0..n).map(|k| self.p.gen(["A", "B"][k], 0)).collect();
            let me = self.p.datas.len();
            let name = format!("D{}", i);
            self.gens = gens.clone();
            let nc = 1 + self.s.below(3) as usize;
            let mut cons: Vec<(String, Option<Vec<Ty>>)> = vec![];
            for k in 0..nc {
                let f = if self.one(3) { None } else { let n = self.s.below(4); Some((0..n).map(|_| if !value && k > 0 && self.one(4) { ap(Ty::D(me), gens.iter().map(|g| Ty::G(*g)).collect()) } else { self.ty(1) }).collect()) };
                cons.push((format!("c{}.{}", i, k), f));
            }
            self.gens = vec![];
            self.p.datas.push(Data { name, value, gens, cons });
        }
    }
    fn classes(&mut self) {
        for i in 0..self.s.below(3) {
            let hk = i > 0 && self.one(3);
            let a = self.p.gen(if hk { "F" } else { "A" }, hk as usize);
            let c = self.p.classes.len();
            let mut supers = vec![];
            if !hk { for k in BUILTIN_CLASSES..c { if self.p.gens[self.p.classes[k].gens[0]].1 == 0 && self.one(2) { supers.push(Pred { class: k, args: vec![Ty::G(a)] }) } } }
            self.p.classes.push(Class { name: format!("K{}", i), gens: vec![a], supers, methods: vec![] });
            for m in 0..1 + self.s.below(2) {
                let mut gens = vec![];
                if self.one(2) || hk { gens.push(self.p.gen("X", 0)) }
                let mut preds = vec![];
                if let Some(g) = gens.first() { let cs = self.simple_classes(); if !cs.is_empty() && self.one(3) { preds.push(Pred { class: *pick(self.s, &cs), args: vec![Ty::G(*g)] }) } }
                self.gens = gens.clone();
                self.gens.push(a);
                self.gens.push(a);
                // the class parameter has to occur
                let me = if hk { ap(Ty::G(a), vec![Ty::G(gens[0])]) } else { Ty::G(a) };
                let np = self.s.below(3) as usize;
                let (params, ty) = if np == 0 && self.one(2) { (None, me.clone()) } else {
                    let mut ps: Vec<Ty> = (0..np).map(|_| self.ty(1)).collect();
                    let r = if np == 0 || self.one(3) { me.clone() } else { let k = self.s.below(np as u64) as usize; ps[k] = me.clone(); self.ty(1) };
                    (Some(self.binds(np).into_iter().map(|b| (b, 0)).collect::<Vec<_>>()), fun(ps, r))
                };
                // every parameter of the method occurs in its type, or its uses would be ambiguous
                if gens.iter().any(|g| !ty.gens().contains(g)) { preds.clear() }
                self.gens = vec![];
                self.p.classes[c].methods.push(Method { name: format!("m{}.{}", i, m), scheme: Scheme { gens, preds, ty }, params, default: None });
            }
            // defaults
            for m in 0..self.p.classes[c].methods.len() { if self.one(4) {
                let me = self.p.classes[c].methods[m].clone();
                self.gens = me.scheme.gens.clone(); self.gens.push(a);
                self.prem = self.close(&self.p.class_pred(c));
                for p in &me.scheme.preds { let v = self.close(p); self.prem.extend(v) }
                let d = self.body(&me.params, &me.scheme.ty, 8);
                self.p.classes[c].methods[m].default = d;
                self.gens = vec![]; self.prem = vec![];
            } }
        }
    }
    fn body(&mut self, params: &Option<Vec<Bind>>, ty: &Ty, fuel: usize) -> Option<Vec<Ex>> {
        match params {
            None => self.code(&[], &[], ty, fuel),
            Some(bs) => { let (ps, r) = ty.as_fun().unwrap(); let (ps, r) = (ps.to_vec(), r.clone()); let names: Vec<String> = bs.iter().map(|b| b.0.clone()).collect(); self.code(&names, &ps, &r, fuel) }
        }
    }
    fn insts(&mut self) {
        for c in BUILTIN_CLASSES..self.p.classes.len() {
            let hk = self.p.gens[self.p.classes[c].gens[0]].1 == 1;
            let mut heads: Vec<Ty> = if hk { (1..self.p.datas.len()).filter(|d| self.p.datas[*d].gens.len() == 1).map(Ty::D).collect() } else { let mut v = vec![I64, I32, F64, STR, BOOL, CHAR, UNIT, Ty::Tup(2), Ty::Fun(1)]; v.extend((1..self.p.datas.len()).map(Ty::D)); v };
            let n = 1 + self.s.below(4);
            for _ in 0..n {
                if heads.is_empty() { break }
                let h = self.s.below(heads.len() as u64) as usize;
                let h = heads.remove(h);
                let ar = if hk { 0 } else { self.p.arity(&h) };
                let gens: Vec<usize> = (0..ar).map(|k| self.p.gen(["M", "N"][k % 2], 0)).collect();
                // sometimes not the most general instance
                let (target, gens) = if ar == 1 && self.one(4) { (ap(h, vec![I64]), vec![]) } else { (ap(h, gens.iter().map(|g| Ty::G(*g)).collect()), gens) };
                let cs = self.simple_classes();
                let ctx: Vec<Pred> = gens.iter().filter_map(|g| if self.s.bool() { let k = if self.s.bool() && !hk { c } else if cs.is_empty() { return None } else { *pick(self.s, &cs) }; Some(Pred { class: k, args: vec![Ty::G(*g)] }) } else { None }).collect();
                let t = Pred { class: c, args: vec![target] };
                let m: BTreeMap<usize, Ty> = self.p.classes[c].gens.iter().copied().zip(t.args.iter().cloned()).collect();
                self.prem = ctx.iter().flat_map(|p| self.close(p)).collect();
                let supers: Vec<Pred> = self.p.classes[c].supers.iter().map(|s| s.subst(&m)).collect();
                let ok = supers.iter().all(|s| self.holds(s, 5));
                self.prem = vec![];
                if !ok { continue }
                let name = format!("I{}", self.p.insts.len());
                self.p.insts.push(Inst { name, gens, ctx, target: t, methods: vec![] });
            }
        }
    }
    fn inst_methods(&mut self) {
        let mut i = BUILTIN_INSTS;
        while i < self.p.insts.len() {
            let inst = self.p.insts[i].clone();
            let cl = self.p.classes[inst.target.class].clone();
            let m: BTreeMap<usize, Ty> = cl.gens.iter().copied().zip(inst.target.args.iter().cloned()).collect();
            let mut ok = true;
            for (k, me) in cl.methods.iter().enumerate() {
                if me.default.is_some() && self.one(2) { continue }
                self.gens = inst.gens.clone(); self.gens.extend(&me.scheme.gens);
                self.prem = inst.ctx.iter().flat_map(|p| self.close(p)).collect();
                for p in &me.scheme.preds { let v = self.close(&p.subst(&m)); self.prem.extend(v) }
                let params = me.params.as_ref().map(|p| self.binds(p.len()).into_iter().map(|b| (b, 0)).collect());
                let transparent = self.one(5);
                match self.body(&params, &me.scheme.ty.subst(&m), 8) { Some(body) => self.p.insts[i].methods.push(IMethod { m: k, params, body, transparent }), None => ok = false }
            }
            self.gens = vec![]; self.prem = vec![];
            if ok { i += 1 } else { self.p.insts.remove(i); }
        }
    }
    fn functions(&mut self) {
        let n = self.s.below(5) as usize;
        let mut i = 0;
        while i < n {
            let pair = self.one(6);
            let mut group: Vec<(String, bool, Option<Vec<String>>, Scheme)> = vec![];
            for k in 0..1 + pair as usize {
                let rec = pair || self.one(3);
                let ng = if pair { 0 } else { self.s.below(3) as usize };
                let gens: Vec<usize> = (0..ng).map(|k| self.p.gen(["A", "B"][k], 0)).collect();
                self.gens = gens.clone();
                let np = self.s.below(4) as usize;
                let r = self.ty(2);
                let (params, ty) = if np == 0 && !rec && self.one(2) { (None, r) } else {
                    let mut ps: Vec<Ty> = (0..np).map(|_| self.ty(2)).collect();
                    let mut bs = self.binds(np);
                    if rec { ps.insert(0, I64); bs.insert(0, "n".into()) }
                    (Some(bs), fun(ps, r))
                };
                let cs = self.simple_classes();
                let used = ty.gens();
                let preds: Vec<Pred> = gens.iter().filter_map(|g| if !cs.is_empty() && used.contains(g) && self.s.bool() { Some(Pred { class: *pick(self.s, &cs), args: vec![Ty::G(*g)] }) } else { None }).collect();
                self.gens = vec![];
                group.push((format!("{}{}", if self.one(8) { "fn" } else { "t" }, i + k), rec, params, Scheme { gens, preds, ty }));
            }
            let mut made = vec![];
            for (n, rec, params, s) in &group {
                self.gens = s.gens.clone();
                self.prem = s.preds.iter().flat_map(|p| self.close(p)).collect();
                self.rec = if *rec { group.iter().filter(|g| g.1).map(|g| { let (ps, r) = g.3.ty.as_fun().unwrap(); (g.0.clone(), ps.to_vec(), r.clone()) }).collect() } else { vec![] };
                let b = match params {
                    None => self.code(&[], &[], &s.ty, 14),
                    Some(bs) => {
                        let (ps, r) = s.ty.as_fun().unwrap();
                        let (ps, r) = (ps.to_vec(), r.clone());
                        if *rec {
                            let all = std::mem::take(&mut self.rec);
                            let base = self.code(bs, &ps, &r, 6);
                            self.rec = all;
                            let step = self.code(bs, &ps, &r, 14);
                            match (base, step) { (Some(mut b), Some(mut s)) => Some(vec![ex(K::If(Box::new(call("i64<", vec![name("n"), int(1)])), Box::new(if b.len() == 1 { b.pop().unwrap() } else { ex(K::Seq(b)) }), Box::new(if s.len() == 1 { s.pop().unwrap() } else { ex(K::Seq(s)) })))]), _ => None }
                        } else { self.code(bs, &ps, &r, 14) }
                    }
                };
                self.rec = vec![]; self.gens = vec![]; self.prem = vec![];
                if let Some(b) = b { made.push((n.clone(), *rec, params.clone(), s.clone(), b)) }
            }
            if made.len() == group.len() {
                for (n, rec, params, s, body) in made {
                    let ann = if self.one(2) { Some(s.clone()) } else { None };
                    let transparent = !rec && self.one(5);
                    self.p.funs.push(Func { name: n.clone(), transparent, params: params.map(|p| p.into_iter().map(|b| (b, 0)).collect()), ann, body });
                    self.funs.push((n, s));
                }
            }
            i += group.len();
        }
    }
    /// Turns a value into something to look at.
    fn see(&mut self, t: &Ty, e: Ex, d: usize) -> Ex {
        match t {
            Ty::C("I64") => call("tick", vec![e]),
            Ty::C("I32") => call("tick", vec![call("i32>i64", vec![e])]),
            Ty::C("F64") => ex(K::If(Box::new(call("f64<", vec![e, ex(K::Fp(1.0))])), Box::new(call("tick", vec![int(1)])), Box::new(call("tick", vec![int(2)])))),
            Ty::C("String") => ex(K::If(Box::new(call("str=", vec![e.clone(), ex(K::Str("a".into()))])), Box::new(call("tick", vec![int(77)])), Box::new(call("tick", vec![call("strlen", vec![e])])))),
            Ty::C("Char") => ex(K::Match(Box::new(e), vec![(pt(P::Ch('a')), vec![call("tick", vec![int(5)])]), (pt(P::Wild), vec![call("tick", vec![int(6)])])])),
            Ty::D(0) => ex(K::If(Box::new(e), Box::new(call("tick", vec![int(3)])), Box::new(call("tick", vec![int(4)])))),
            Ty::Ap(h, a) if d > 0 => match **h {
                Ty::Tup(_) => { let ps = (0..a.len()).map(|i| pt(P::Var(format!("v{}.{}", d, i), None))).collect(); let b = a.clone().iter().enumerate().map(|(i, t)| self.see(t, name(&format!("v{}.{}", d, i)), d - 1)).collect(); ex(K::Match(Box::new(e), vec![(pt(P::Tup(ps)), b)])) }
                Ty::D(k) => { let m: BTreeMap<usize, Ty> = self.p.datas[k].gens.iter().copied().zip(a.clone()).collect(); self.see_data(k, &m, e, d) }
                Ty::Fun(_) => { let (ps, r) = t.as_fun().unwrap(); let (ps, r) = (ps.to_vec(), r.clone()); let a: Option<Vec<Ex>> = ps.iter().map(|p| self.gen(p, 2)).collect(); match a { Some(a) => { let c = ex(K::App(Box::new(e), a)); self.see(&r, c, d - 1) } None => e } }
                _ => e,
            },
            Ty::D(k) if d > 0 => self.see_data(*k, &BTreeMap::new(), e, d),
            _ => e,
        }
    }
    fn see_data(&mut self, k: usize, m: &BTreeMap<usize, Ty>, e: Ex, d: usize) -> Ex {
        let cons = self.p.datas[k].cons.clone();
        let cs = cons.iter().enumerate().map(|(j, (c, f))| {
            let mut b = vec![call("tick", vec![int(10 + j as i64)])];
            let ps = f.as_ref().map(|fs| fs.iter().enumerate().map(|(i, t)| { let n = format!("v{}.{}", d, i); b.push(self.see(&t.subst(m), name(&n), d - 1)); pt(P::Var(n, None)) }).collect());
            b.push(ex(K::Unit));
            (pt(P::Con(c.clone(), ps)), b)
        }).collect();
        ex(K::Match(Box::new(e), cs))
    }
    pub fn program(&mut self) {
        self.datas();
        self.classes();
        self.insts();
        self.inst_methods();
        self.functions();
        let n = 1 + self.s.below(3);
        for _ in 0..n {
            let t = self.ty(2);
            if let Some(e) = self.gen(&t, 20) { let e = self.see(&t, e, 3); self.p.inits.push(e) }
        }
        // every function is looked at
        for i in 0..self.funs.len() {
            let (f, s) = self.funs[i].clone();
            let m: BTreeMap<usize, Ty> = s.gens.iter().map(|g| (*g, self.ty(1))).collect();
            if !s.preds.iter().all(|p| self.holds(&p.subst(&m), 5)) { continue }
            let t = s.ty.subst(&m);
            let is_value = self.p.funs.iter().any(|g| g.name == f && g.params.is_none());
            let (t, e) = match t.as_fun() { Some((ps, r)) if !is_value => { let ps = ps.to_vec(); let a: Option<Vec<Ex>> = ps.iter().map(|p| self.gen(p, 3)).collect(); match a { Some(a) => (r.clone(), call(&f, a)), None => continue } } _ => (t, name(&f)) };
            let e = self.see(&t, e, 3);
            self.p.inits.push(e);
        }
    }
    // ---- terms of no particular type
    fn term(&mut self, d: usize) -> Ex {
        let n = if d == 0 { self.s.below(7) } else { self.s.below(24) };
        match n {
            0..=4 => { let mut ns: Vec<String> = self.locs.iter().map(|l| l.name.clone()).collect(); if ns.is_empty() || self.one(4) { ns.extend(self.funs.iter().map(|f| f.0.clone())); ns.extend(["none", "i64+", "and", "tick"].map(String::from)); for c in &self.p.classes { ns.extend(c.methods.iter().map(|m| m.name.clone())) } } name(pick(self.s, &ns)) }
            5 => ex(K::Int(false, 1)), 6 => ex(pick(self.s, &[K::Unit, K::Fp(1.5), K::Str("a".into()), K::Name("#t".into())]).clone()),
            7..=13 => {
                let mut ns: Vec<String> = self.locs.iter().map(|l| l.name.clone()).collect();
                for _ in 0..2 { ns.extend(self.locs.iter().filter(|l| l.fun).map(|l| l.name.clone())) }
                if ns.is_empty() || self.one(3) { ns.extend(self.funs.iter().map(|f| f.0.clone())); ns.extend(["some", "i64+", "tick", "not"].map(String::from)); for c in &self.p.classes { ns.extend(c.methods.iter().map(|m| m.name.clone())) } }
                let f = if self.one(8) { self.term(d - 1) } else { name(pick(self.s, &ns)) };
                // as many arguments as it takes, if that is known
                let k = match &f.k { K::Name(n) => self.locs.iter().rev().find(|l| l.name == *n).map(|l| &l.s).or_else(|| self.funs.iter().find(|g| g.0 == *n).map(|g| &g.1)).and_then(|s| s.ty.as_fun().map(|f| f.0.len())), _ => None };
                let k = k.unwrap_or(1 + (self.one(3) as usize));
                ex(K::App(Box::new(f), (0..k).map(|_| self.term(d - 1)).collect()))
            }
            14 => ex(K::Tup(vec![self.term(d - 1), self.term(d - 1)])),
            15 => ex(K::If(Box::new(name("#t")), Box::new(self.term(d - 1)), Box::new(self.term(d - 1)))),
            16 => ex(K::Seq(vec![self.term(d - 1), self.term(d - 1)])),
            17 => { let e = self.term(d - 1); let t = self.plain(1); ex(K::Ann(Box::new(e), t)) }
            18 => { let e = self.term(d - 1); let bs = self.binds(2); let l: Vec<Loc> = bs.iter().map(|b| Loc { name: b.clone(), s: mono(UNIT), fun: false }).collect(); let b = self.with(l, |c| c.term(d - 1)); let p = pt(P::Tup(bs.iter().map(|b| pt(P::Var(b.clone(), None))).collect())); ex(K::Match(Box::new(e), vec![(p, vec![b])])) }
            19 => { let b = self.fresh(); let e = self.term(d - 1); let ann = if self.one(4) { Some(self.plain(1)) } else { None }; let r = self.with(vec![Loc { name: b.clone(), s: mono(UNIT), fun: false }], |c| c.term(d - 1)); ex(K::Let(vec![Def::Var((b, 0), ann, e)], vec![r])) }
            20 if self.ret.is_some() => { let e = self.term(d - 1); ex(K::Seq(vec![ex(K::If(Box::new(name("#t")), Box::new(ex(K::Ret(Some(Box::new(e))))), Box::new(ex(K::Unit)))), self.term(d - 1)])) }
            _ => {
                let two = self.one(4);
                let bs = self.binds(1 + two as usize);
                let ks: Vec<usize> = bs.iter().map(|_| 1 + self.one(3) as usize).collect();
                let own: Vec<Loc> = bs.iter().zip(&ks).map(|(b, k)| Loc { name: b.clone(), s: mono(fun(vec![UNIT; *k], UNIT)), fun: true }).collect();
                let ds = bs.iter().zip(&ks).map(|(b, k)| {
                    let ann = if self.one(2) { Some(self.scheme(*k, &["P", "Q"])) } else { None };
                    let ps = self.binds(*k);
                    let mut l = own.clone();
                    l.extend(ps.iter().map(|b| Loc { name: b.clone(), s: mono(UNIT), fun: false }));
                    let (g, r) = (self.gens.clone(), self.ret.replace(UNIT));
                    if let Some(s) = &ann { self.gens.extend(&s.gens) }
                    let body = self.with(l, |c| c.term(d - 1));
                    self.gens = g;
                    self.ret = r;
                    Def::Fun(LFun { name: (b.clone(), 0), params: ps.into_iter().map(|b| (b, 0)).collect(), ann, body: vec![body] })
                }).collect();
                let b = self.with(own, |c| c.term(d - 1));
                ex(K::Let(ds, vec![b]))
            }
        }
    }
    fn plain(&mut self, d: usize) -> Ty {
        let gs: Vec<usize> = self.gens.iter().copied().filter(|g| self.p.gens[*g].1 == 0).collect();
        match self.s.below(if d > 0 { 7 } else { 4 }) { 0..=2 if !gs.is_empty() => Ty::G(*pick(self.s, &gs)), 0..=3 => self.ty(0), 4 => fun(vec![self.plain(d - 1)], self.plain(d - 1)), 5 => tup(vec![self.plain(d - 1), self.plain(d - 1)]), _ => self.ty(1) }
    }
    fn scheme(&mut self, k: usize, names: &[&str]) -> Scheme {
        let gens: Vec<usize> = names[..self.s.below(names.len() as u64 + 1) as usize].iter().map(|n| self.p.gen(n, 0)).collect();
        let old = self.gens.clone();
        self.gens.extend(&gens);
        self.gens.extend(&gens);
        let ps = (0..k).map(|_| self.plain(1)).collect();
        let r = self.plain(1);
        self.gens = old;
        let cs = self.simple_classes();
        let preds = gens.iter().filter_map(|g| if !cs.is_empty() && self.s.bool() { Some(Pred { class: *pick(self.s, &cs), args: vec![Ty::G(*g)] }) } else { None }).collect();
        Scheme { gens, preds, ty: fun(ps, r) }
    }
    /// A few functions of no particular type.
    pub fn terms(&mut self) {
        if self.one(2) { self.classes(); self.insts(); self.inst_methods() }
        let n = 1 + self.s.below(3);
        for i in 0..n {
            let k = self.s.below(3) as usize;
            let ann = if self.one(4) { Some(self.scheme(k, &["A", "B"])) } else { None };
            let ps = ["x", "y", "z"][..k].iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let l = ps.iter().map(|b| Loc { name: b.clone(), s: mono(UNIT), fun: false }).collect();
            if let Some(s) = &ann { self.gens = s.gens.clone() }
            self.ret = Some(UNIT);
            let d = 1 + self.s.below(4) as usize;
            let name = format!("t{}", i);
            if self.one(4) { self.funs.push((name.clone(), mono(fun(vec![UNIT; k], UNIT)))) }
            let body = self.with(l, |c| c.term(d));
            self.gens = vec![];
            self.ret = None;
            self.p.funs.push(Func { name: name.clone(), transparent: false, params: Some(ps.into_iter().map(|b| (b, 0)).collect()), ann, body: vec![body] });
            if !self.funs.iter().any(|f| f.0 == name) { self.funs.push((name, mono(fun(vec![UNIT; k], UNIT)))) }
        }
    }
    // ---- changes
    /// Some change to the program, that may or may not leave it well-typed.
    pub fn mutate(&mut self) {
        let nf = self.p.funs.len();
        match self.s.below(14) {
            0 if nf > 0 => { let f = self.s.below(nf as u64) as usize; self.p.funs[f].ann = None }
            1 if nf > 0 => { let f = self.s.below(nf as u64) as usize; if let Some(s) = &mut self.p.funs[f].ann { if !s.preds.is_empty() { let k = self.s.below(s.preds.len() as u64) as usize; s.preds.remove(k); } } }
            2 if nf > 0 => { let f = self.s.below(nf as u64) as usize; let Some(mut s) = self.p.funs[f].ann.clone() else { return }; self.gens = s.gens.clone(); let mut left = self.s.below(s.ty.size() as u64) as usize; let t = self.ty(1); self.gens = vec![]; s.ty = replace(&s.ty, &mut left, &t); self.p.funs[f].ann = Some(s) }
            3 => { let n = self.p.insts.len() - BUILTIN_INSTS; if n > 0 { let k = BUILTIN_INSTS + self.s.below(n as u64) as usize; self.p.insts.remove(k); } }
            4 => { let n = self.p.insts.len() - BUILTIN_INSTS; if n > 0 { let k = BUILTIN_INSTS + self.s.below(n as u64) as usize; let i = &mut self.p.insts[k]; if !i.ctx.is_empty() { i.ctx.remove(0); } } }
            5 => { let n = self.p.insts.len() - BUILTIN_INSTS; if n > 0 { let k = BUILTIN_INSTS + self.s.below(n as u64) as usize; let mut i = self.p.insts[k].clone(); i.name = "dup".into(); if self.one(2) { if let Some(g) = i.gens.pop() { let m = BTreeMap::from([(g, STR)]); i.target = i.target.subst(&m); i.ctx = i.ctx.iter().map(|c| c.subst(&m)).collect(); } } self.p.insts.push(i) } }
            6 => { let n = self.p.classes.len(); if n > BUILTIN_CLASSES { let k = BUILTIN_CLASSES + self.s.below((n - BUILTIN_CLASSES) as u64) as usize; if self.one(2) { self.p.classes[k].supers.clear() } else { let ms = self.p.classes[k].methods.len() as u64; let m = self.s.below(ms) as usize; self.p.classes[k].methods[m].scheme.preds.clear() } } }
            7 => { // another name
                let names: Vec<String> = { let mut v: Vec<String> = POOL.iter().map(|s| s.to_string()).collect(); v.extend(self.p.funs.iter().map(|f| f.name.clone())); v.extend(self.p.ops.iter().map(|o| o.name.to_string())); v };
                let n = pick(self.s, &names).clone();
                self.at(|e| matches!(e.k, K::Name(_)), move |e, _| e.k = K::Name(n))
            }
            8 => { let u = self.ty(1); let r = self.leaf(&u, 2); if let Some(r) = r { self.at(|_| true, move |e, _| *e = r) } }
            9 => self.at(|e| matches!(&e.k, K::App(_, a) if !a.is_empty()), |e, s| if let K::App(_, a) = &mut e.k { let k = s.below(a.len() as u64) as usize; a.remove(k); }),
            10 => self.at(|e| matches!(&e.k, K::App(_, a) if a.len() > 1), |e, s| if let K::App(_, a) = &mut e.k { let k = s.below(a.len() as u64 - 1) as usize; a.swap(k, k + 1) }),
            11 => { // take an expression from elsewhere
                let mut all = vec![];
                for b in self.p.bodies_mut() { for e in b.iter_mut() { each(e, &mut |e| all.push(e.clone())) } }
                if all.is_empty() { return }
                let r = pick(self.s, &all).clone();
                self.at(|_| true, move |e, _| *e = r)
            }
            12 => self.at(|e| matches!(&e.k, K::Let(..)), |e, s| if let K::Let(ds, _) = &mut e.k { let k = s.below(ds.len() as u64) as usize; match &mut ds[k] { Def::Var(_, t, _) => *t = None, Def::Fun(f) => if s.bool() { f.ann = None } else if let Some(a) = &mut f.ann { a.preds.clear() } } }),
            _ => self.at(|e| matches!(&e.k, K::Match(..)), |e, s| if let K::Match(_, cs) = &mut e.k { let k = s.below(cs.len() as u64) as usize; cs[k].0.k = match s.below(4) { 0 => P::Wild, 1 => P::Var("x".into(), None), 2 => P::Int(false, 1), _ => P::Con("#t".into(), None) } }),
        }
    }
    fn at(&mut self, mut ok: impl FnMut(&Ex) -> bool, f: impl FnOnce(&mut Ex, &mut S)) {
        let mut n = 0u64;
        for b in self.p.bodies_mut() { for e in b.iter_mut() { each(e, &mut |e| if ok(e) { n += 1 }) } }
        if n == 0 { return }
        let mut k = self.s.below(n) as i64;
        let mut f = Some(f);
        let s = &mut *self.s;
        for b in self.p.bodies_mut() { for e in b.iter_mut() { each(e, &mut |e| if f.is_some() && ok(e) { if k == 0 { (f.take().unwrap())(e, s) } k -= 1 }) } }
    }
}
fn replace(t: &Ty, left: &mut usize, by: &Ty) -> Ty {
    if *left == 0 { *left = usize::MAX; return by.clone() }
    *left = left.wrapping_sub(1);
    match t { Ty::Ap(h, a) => { if *left == 0 { *left = usize::MAX; return by.clone() } *left = left.wrapping_sub(1); ap((**h).clone(), a.iter().map(|t| replace(t, left, by)).collect()) } t => t.clone() }
}
