//! Random well-typed programs of the lowered language, and the meaning of the language
//! (a direct evaluator), independent of any lowering pass or code generator.
#![cfg(not(kani))]
use crate::c06::whole::M;
use kit::*;
use llrl::backend::native::mem_layout::Class;
use llrl::lowering::ir::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T { I(bool, usize), F32, F64, Char, Unit, St(usize), Un(usize), Da(usize), P(Box<T>), Str, Arr(Box<T>), Cl(Vec<T>, Box<T>), Syn(Box<T>) }
pub const BOOL: T = T::I(false, 1);
pub const U64: T = T::I(false, 64);

pub struct Fun { pub id: CtId, pub env: Option<Vec<T>>, pub params: Vec<T>, pub ret: T }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { Lowered, Full }
pub struct World {
    pub mode: Mode,
    pub ct: CtIdGen,
    pub rt: RtIdGen,
    pub structs: Vec<(CtId, Vec<T>)>,
    pub unions: Vec<(CtId, Vec<T>)>,
    pub datas: Vec<(CtId, DataRepr, Vec<Vec<T>>)>,
    pub defs: HashMap<CtId, Arc<Def>>,
    pub funs: Vec<Fun>,
    pub host: Vec<Host>,
    /// Types to take mostly.
    pub pool: Vec<T>,
}
/// A function of the host, called by the C convention.
pub struct Host { pub addr: u64, pub params: Vec<T>, pub ret: T, pub f: fn(&[V]) -> V }

impl World {
    pub fn new(mode: Mode) -> Self { World { mode, ct: CtIdGen::new(), rt: RtIdGen::new(), structs: vec![], unions: vec![], datas: vec![], defs: HashMap::new(), funs: vec![], host: vec![], pool: vec![] } }
    pub fn to_ct(&self, t: &T) -> Ct {
        match t {
            T::I(true, w) => Ct::S(*w), T::I(false, w) => Ct::U(*w), T::F32 => Ct::F32, T::F64 => Ct::F64, T::Char => Ct::Char, T::Unit => Ct::Unit,
            T::St(i) => Ct::Id(self.structs[*i].0), T::Un(i) => Ct::Id(self.unions[*i].0), T::Da(i) => Ct::Id(self.datas[*i].0),
            T::P(t) => Ct::ptr(self.to_ct(t)), T::Syn(t) => Ct::syntax(self.to_ct(t)), T::Str => Ct::String, T::Arr(t) => Ct::array(self.to_ct(t)),
            T::Cl(a, r) => Ct::clos(a.iter().map(|a| self.to_ct(a)).collect(), self.to_ct(r)),
        }
    }
    pub fn model(&self, t: &T) -> M {
        match t {
            T::I(_, w) => { let n = w.div_ceil(8).next_power_of_two(); M::Leaf(n, n, Class::Integer) }
            T::F32 => M::Leaf(4, 4, Class::FloatingPoint), T::F64 => M::Leaf(8, 8, Class::FloatingPoint),
            T::Char => M::Leaf(4, 4, Class::Integer), T::Unit => M::Leaf(0, 0, Class::Void), T::P(_) => M::Leaf(8, 8, Class::Integer),
            T::Str | T::Arr(_) | T::Cl(..) => M::Leaf(16, 8, Class::Integer),
            T::St(i) => M::Prod(self.structs[*i].1.iter().map(|t| self.model(t)).collect()),
            T::Un(i) => M::Sum(self.unions[*i].1.iter().map(|t| self.model(t)).collect()),
            T::Da(_) | T::Syn(_) => unreachable!(),
        }
    }
    pub fn add_struct(&mut self, fs: Vec<T>) -> usize {
        let id = self.ct.next();
        let d = Def::Struct(Struct::new(StructRepr::Standard, fs.iter().map(|t| self.to_ct(t)).collect()));
        self.defs.insert(id, Arc::new(d));
        self.structs.push((id, fs));
        self.structs.len() - 1
    }
    pub fn scalar<S: Src>(&self, s: &mut S) -> T {
        match s.below(14) {
            0 => BOOL, 1 | 2 => T::F32, 3 | 4 => T::F64, 5 => T::Char, 6 => T::Unit,
            n => T::I(n % 2 == 0, [8, 16, 32, 64][s.below(4) as usize]),
        }
    }
    /// A type whose values can be compared (no pointers).
    pub fn plain<S: Src>(&self, s: &mut S) -> T {
        if !self.pool.is_empty() && s.below(8) != 0 { return self.pool[s.below(self.pool.len() as u64) as usize].clone() }
        match s.below(8) {
            0 | 1 | 2 if !self.structs.is_empty() => T::St(s.below(self.structs.len() as u64) as usize),
            3 if !self.datas.is_empty() => T::Da(s.below(self.datas.len() as u64) as usize),
            4 if !self.unions.is_empty() && s.bool() => T::Un(s.below(self.unions.len() as u64) as usize),
            5 if s.below(3) == 0 => T::Str,
            _ => self.scalar(s),
        }
    }
    pub fn any<S: Src>(&self, s: &mut S) -> T {
        if !self.pool.is_empty() && s.below(8) != 0 { return self.pool[s.below(self.pool.len() as u64) as usize].clone() }
        match s.below(10) {
            0 => T::P(Box::new(self.plain(s))), 1 => T::Arr(Box::new(self.plain(s))),
            2 if !self.funs.is_empty() => { let f = &self.funs[s.below(self.funs.len() as u64) as usize]; T::Cl(f.params.clone(), Box::new(f.ret.clone())) }
            3 if self.mode == Mode::Full && s.below(3) == 0 => T::Syn(Box::new(self.plain(s))),
            _ => self.plain(s),
        }
    }
    pub fn types<S: Src>(&mut self, s: &mut S) {
        for _ in 0..1 + s.below(4) {
            let n = 1 + s.below(4);
            let fs = (0..n).map(|_| if s.below(12) == 0 { T::P(Box::new(self.scalar(s))) } else { let t = self.plain(s); if let T::Da(_) = t { T::Str } else { t } }).collect();
            self.add_struct(fs);
            if s.below(3) == 0 {
                let n = 1 + s.below(3);
                let ts: Vec<T> = (0..n).map(|_| { let t = self.plain(s); if matches!(t, T::Da(_) | T::Un(_)) { T::F64 } else { t } }).collect();
                let id = self.ct.next();
                let d = Def::Union(Union::new(ts.iter().map(|t| self.to_ct(t)).collect()));
                self.defs.insert(id, Arc::new(d));
                self.unions.push((id, ts));
            }
            if self.mode == Mode::Full && s.below(3) != 0 { self.data(s) }
        }
    }
    fn data<S: Src>(&mut self, s: &mut S) {
        let id = self.ct.next();
        let boxed = s.bool();
        let me = T::Da(self.datas.len());
        let ncons = s.below(5) + 1;
        let cons: Vec<Vec<T>> = (0..ncons).map(|k| {
            let n = if s.below(3) == 0 { 0 } else { s.below(4) };
            (0..n).map(|_| if boxed && k > 0 && s.below(5) == 0 { me.clone() } else { let t = self.plain(s); if t == me { T::F32 } else { t } }).collect()
        }).collect();
        self.datas.push((id, if boxed { DataRepr::Boxed } else { DataRepr::Value }, cons.clone()));
        let d = Def::Data(Data::new(if boxed { DataRepr::Boxed } else { DataRepr::Value }, cons.iter().map(|c| c.iter().map(|t| self.to_ct(t)).collect()).collect()));
        self.defs.insert(id, Arc::new(d));
    }
    /// A new function with a random signature and body.
    pub fn function<S: Src>(&mut self, s: &mut S, size: i32) {
        let id = self.ct.next();
        // the variables of instances of the same generic function have the same names
        let outer = if s.bool() { Some(std::mem::replace(&mut self.rt, RtIdGen::new())) } else { None };
        let np = s.below(5);
        let params: Vec<T> = (0..np).map(|_| self.any(s)).collect();
        let env: Option<Vec<T>> = if s.below(3) == 0 { let n = s.below(4); Some((0..n).map(|_| self.any(s)).collect()) } else { None };
        let ret = self.plain(s);
        let mut scope = vec![];
        let mut ps = vec![];
        for t in &params { let v = self.rt.next(); ps.push(RtParam::new(v, self.to_ct(t))); scope.push((v, t.clone())); }
        let fenv = env.as_ref().map(|e| {
            let eid = self.rt.next();
            FunctionEnv::new(eid, e.iter().map(|t| { let v = self.rt.next(); scope.push((v, t.clone())); RtParam::new(v, self.to_ct(t)) }).collect())
        });
        let r = ret.clone();
        let ct = self.to_ct(&ret);
        let body = { let mut g = Gen { s: &mut *s, w: &mut *self, scope, lfs: vec![], ret: Some(r.clone()), size, pure: false, nest: 0 }; g.expr(&r, 5) };
        let transparent = fenv.is_none() && s.below(3) == 0;
        let f = Function::standard(fenv, ps, ct, body, transparent);
        self.defs.insert(id, Arc::new(Def::Function(f)));
        if let Some(o) = outer { if o.clone().next() > self.rt.clone().next() { self.rt = o } }
        self.funs.push(Fun { id, env, params, ret });
    }
    pub fn gen_d<S: Src>(&mut self, s: &mut S, t: &T, size: i32, d: u32) -> Rt {
        let mut g = Gen { s, w: self, scope: vec![], lfs: vec![], ret: None, size, pure: false, nest: 0 };
        g.expr(t, d)
    }
    pub fn host_call<S: Src>(&mut self, s: &mut S, h: usize) -> Rt {
        let mut g = Gen { s, w: self, scope: vec![], lfs: vec![], ret: None, size: 30, pure: true, nest: 0 };
        let (ps, addr, ret) = (g.w.host[h].params.clone(), g.w.host[h].addr, g.w.host[h].ret.clone());
        let a: Vec<Rt> = ps.iter().map(|p| g.expr(p, 2)).collect();
        let ct = g.w.to_ct(&ret);
        Rt::call(RtCallee::CIndirect(Rt::unary(Unary::IToPtr(Ct::Unit), int(&U64, addr)), ct), a)
    }
    /// A match of several clauses; which clause is taken and what it binds is the result.
    pub fn match_only<S: Src>(&mut self, s: &mut S) -> (T, Rt) {
        let mut g = Gen { s, w: self, scope: vec![], lfs: vec![], ret: None, size: 40, pure: true, nest: 0 };
        let mt = loop { let t = g.w.any(g.s); if !matches!(t, T::Arr(_) | T::Cl(..)) { break t } };
        let e = { g.size = 40; g.value(&mt) };
        let n = 1 + g.s.below(6);
        let mut cl = vec![];
        for i in 0..=n {
            let mut binds = vec![];
            let p = if i == n { RtPat::Wildcard(g.w.to_ct(&mt)) } else { g.pat(&mt, 4, &mut binds) };
            // the clause number, and a bound scalar if there is one
            g.scope = binds;
            let b = g.in_scope(&U64).filter(|_| g.s.below(3) != 0).map(|v| Rt::binary(Binary::UAdd, v, int(&U64, 1000 * (i + 1)))).or_else(|| g.in_scope(&BOOL).map(|c| Rt::if_(c, int(&U64, i + 100), int(&U64, i)))).unwrap_or_else(|| int(&U64, i));
            g.scope.clear();
            cl.push(RtClause::new(p, b));
        }
        (U64, Rt::match_(e, cl))
    }
    pub fn gen<S: Src>(&mut self, s: &mut S, t: &T, size: i32) -> Rt {
        let mut g = Gen { s, w: self, scope: vec![], lfs: vec![], ret: None, size, pure: false, nest: 0 };
        g.expr(t, 6)
    }
}
pub struct Gen<'a, S: Src> { s: &'a mut S, w: &'a mut World, scope: Vec<(RtId, T)>, lfs: Vec<(RtId, Vec<T>, T)>, ret: Option<T>, size: i32, pure: bool, nest: u32 }
pub fn loc() -> SyntaxMetadata { { use llrl::source_loc::*; SourceLocator::temporary().issue(LocationRange::new(Default::default(), Default::default())) } }
fn lit(signed: bool, w: usize, v: u64) -> u64 { let v = mask(v, w); if signed && w < 64 && v >> (w - 1) & 1 == 1 { v | !0 << w } else { v } }
impl<'a, S: Src> Gen<'a, S> {
    fn cst(&mut self, t: &T) -> Option<Const> {
        Some(match t {
            T::I(g, w) => Const::Integer(self.w.to_ct(t), *g, lit(*g, *w, self.s.u64())),
            T::F32 => { let v = self.f(); Const::FPNumber(Ct::F32, (v as f32 as f64).into()) }
            T::F64 => { let v = self.f(); Const::FPNumber(Ct::F64, v.into()) }
            T::Char => Const::Char(self.s.char()),
            T::Unit => Const::Unit,
            T::Str => Const::String(["", "a", "ab", "b", "llrl", "é\0x"][self.s.below(6) as usize].to_string()),
            _ => return None,
        })
    }
    fn f(&mut self) -> f64 {
        match self.s.below(8) { 0 => 0.0, 1 => -0.0, 2 => f64::NAN, 3 => f64::INFINITY, 4 => 1.5, 5 => -(self.s.below(1000) as f64) / 8.0, 6 => self.s.i64() as f64, _ => self.s.u32() as f64 / 3.0 }
    }
    fn in_scope(&mut self, t: &T) -> Option<Rt> {
        let c: Vec<RtId> = self.scope.iter().filter(|v| v.1 == *t).map(|v| v.0).collect();
        if c.is_empty() { None } else { let i = c[self.s.below(c.len() as u64) as usize]; Some(Rt::Var(i, self.w.to_ct(t))) }
    }
    fn leaf(&mut self, t: &T) -> Rt {
        if self.s.below(4) != 0 { if let Some(v) = self.in_scope(t) { return v } }
        if let Some(c) = self.cst(t) { return Rt::Const(c) }
        let ct = self.w.to_ct(t);
        match t {
            T::St(i) => { let fs = self.w.structs[*i].1.clone(); let a = fs.iter().map(|f| self.leaf(f)).collect(); Rt::construct_struct(ct, a) }
            T::Un(i) => { let ts = self.w.unions[*i].1.clone(); let k = self.s.below(ts.len() as u64) as usize; let e = self.leaf(&ts[k]); Rt::unary(Unary::Reinterpret(ct), e) }
            T::Da(i) => { let a = self.w.datas[*i].2[0].clone(); let a = a.iter().map(|f| self.leaf(f)).collect(); Rt::construct_data(ct, 0, a) }
            T::P(e) => { let e = self.leaf(e); Rt::alloc(Location::Heap, e) }
            T::Arr(e) => { let e = self.leaf(e); Rt::binary(Binary::ArrayConstruct, Rt::alloc(Location::Heap, e), int(&U64, 1)) }
            T::Cl(a, r) => self.closure(a, r, 1),
            T::Syn(e) => { let e = self.leaf(e); Rt::construct_syntax(loc(), e) }
            _ => unreachable!(),
        }
    }
    /// A value built with random constructors all the way down, from few constants.
    fn value(&mut self, t: &T) -> Rt {
        self.size -= 1;
        if self.size <= 0 { return self.leaf(t) }
        let ct = self.w.to_ct(t);
        match t {
            T::I(..) => { let v = self.s.below(4); int(t, v) }
            T::Char => Rt::Const(Const::Char(['a', 'b'][self.s.below(2) as usize])),
            T::St(i) => { let fs = self.w.structs[*i].1.clone(); Rt::construct_struct(ct, fs.iter().map(|f| self.value(f)).collect()) }
            T::Da(i) => { let k = self.s.below(self.w.datas[*i].2.len() as u64) as usize; let fs = self.w.datas[*i].2[k].clone(); Rt::construct_data(ct, k, fs.iter().map(|f| self.value(f)).collect()) }
            T::P(e) => if self.s.below(3) == 0 { Rt::nullary(Nullary::Null(self.w.to_ct(e))) } else { Rt::alloc(Location::Heap, self.value(e)) },
            T::Syn(e) => Rt::construct_syntax(loc(), self.value(e)),
            _ => self.leaf(t),
        }
    }
    fn closure(&mut self, a: &[T], r: &T, d: u32) -> Rt {
        let lf: Vec<RtId> = self.lfs.iter().filter(|f| f.1 == a && f.2 == *r).map(|f| f.0).collect();
        let ct = self.w.to_ct(&T::Cl(a.to_vec(), Box::new(r.clone())));
        if !lf.is_empty() && self.s.bool() { return Rt::local_fun(lf[self.s.below(lf.len() as u64) as usize], vec![], ct) }
        let c: Vec<usize> = (0..self.w.funs.len()).filter(|i| self.w.funs[*i].params == a && self.w.funs[*i].ret == *r).collect();
        if c.is_empty() { return match lf.first() { Some(f) => Rt::local_fun(*f, vec![], ct), None => discard() } }
        let f = if d <= 1 { c[0] } else { c[self.s.below(c.len() as u64) as usize] }; // c[0]: its environment holds earlier functions only
        let (id, env) = (self.w.funs[f].id, self.w.funs[f].env.clone());
        let env = env.map(|e| { let e = e.iter().map(|t| self.expr(t, d.saturating_sub(1))).collect(); Rt::construct_env(Location::Heap, e) });
        Rt::static_fun(Ct::Id(id), ct, env)
    }
    fn let_<R>(&mut self, n: u64, d: u32, k: impl FnOnce(&mut Self) -> R) -> (Vec<RtVar>, R) {
        let at = self.scope.len();
        let mut vs = vec![];
        for _ in 0..n {
            let t = self.w.any(self.s);
            let init = match &t { T::P(e) if !self.w.pool.is_empty() && self.s.bool() => Rt::alloc(Location::Heap, self.near(e, d - 1)), _ => self.expr(&t, d - 1) };
            let v = self.w.rt.next();
            vs.push(RtVar::new(v, self.w.to_ct(&t), init));
            self.scope.push((v, t));
        }
        let r = k(self);
        self.scope.truncate(at);
        (vs, r)
    }
    /// With few types, variables are used more often.
    fn near(&mut self, t: &T, d: u32) -> Rt { if !self.w.pool.is_empty() && self.s.bool() { if let Some(v) = self.in_scope(t) { return v } } self.expr(t, d) }
    fn stmt(&mut self, d: u32) -> Rt {
        if self.pure { return self.leaf(&T::Unit) }
        let ps: Vec<(RtId, T)> = self.scope.iter().filter(|v| matches!(v.1, T::P(_) | T::Arr(_))).cloned().collect();
        if !ps.is_empty() && self.s.below(4) != 0 {
            let (id, t) = ps[self.s.below(ps.len() as u64) as usize].clone();
            let v = Rt::Var(id, self.w.to_ct(&t));
            return match &t {
                T::P(e) => { let e = self.near(e, d - 1); Rt::binary(Binary::Store, e, v) }
                T::Arr(e) => { let e = self.expr(e, d - 1); Rt::ternary(Ternary::ArrayStore, int(&U64, 0), e, v) }
                _ => unreachable!(),
            };
        }
        if d > 2 && self.nest < 2 && self.s.below(3) == 0 { return self.while_(d) }
        if !self.w.pool.is_empty() && !self.w.funs.is_empty() && d > 1 && self.s.below(3) != 0 {
            let k = self.s.below(self.w.funs.len() as u64) as usize;
            let (ps, r) = (self.w.funs[k].params.clone(), self.w.funs[k].ret.clone());
            let a: Vec<Rt> = ps.iter().map(|p| self.near(p, d - 1)).collect();
            let f = self.closure(&ps, &r, d);
            return Rt::call(RtCallee::Standard(f), a);
        }
        let t = self.w.any(self.s);
        self.expr(&t, d - 1)
    }
    fn while_(&mut self, d: u32) -> Rt {
        let (p, pt) = (self.w.rt.next(), T::P(Box::new(T::I(false, 8))));
        let pc = self.w.to_ct(&pt);
        let (u8_, n) = (T::I(false, 8), self.s.below(4));
        let load = Rt::unary(Unary::Load, Rt::Var(p, pc.clone()));
        let cond = Rt::binary(Binary::ULt, load.clone(), int(&u8_, n));
        let step = Rt::binary(Binary::Store, Rt::binary(Binary::UAdd, load, int(&u8_, 1)), Rt::Var(p, pc.clone()));
        self.nest += 1;
        let b = self.stmt(d - 1);
        self.nest -= 1;
        let loc = if self.w.mode == Mode::Lowered && self.s.bool() { Location::StackStatic } else { Location::Heap };
        let b = Rt::while_(cond, Rt::seq(vec![step], b));
        Rt::let_var(vec![RtVar::new(p, pc, Rt::alloc(loc, int(&u8_, 0)))], b)
    }
    fn tail(&mut self, t: &T, cs: &[(RtId, Vec<T>)], d: u32) -> Rt {
        match self.s.below(8) {
            0 | 1 if d > 0 => { let c = self.expr(&BOOL, d - 1); let (a, b) = (self.tail(t, cs, d - 1), self.tail(t, cs, d - 1)); Rt::if_(c, a, b) }
            2 if d > 1 => { let cs = cs.to_vec(); let (vs, b) = self.let_(1, d, |g| g.tail(t, &cs, d - 1)); Rt::let_var(vs, b) }
            3 => self.expr(t, d.saturating_sub(1)),
            _ => { let (id, ps) = cs[self.s.below(cs.len() as u64) as usize].clone(); let a = ps.iter().map(|p| self.expr(p, d.saturating_sub(1))).collect(); let ct = self.w.to_ct(t); Rt::cont_call(id, a, Some(ct)) }
        }
    }
    fn pat(&mut self, t: &T, d: u32, binds: &mut Vec<(RtId, T)>) -> RtPat {
        let ct = self.w.to_ct(t);
        match self.s.below(6) {
            0 => return RtPat::Wildcard(ct),
            1 => { let v = self.w.rt.next(); binds.push((v, t.clone())); return RtPat::Var(v, ct, None) }
            2 if d > 0 => { let v = self.w.rt.next(); binds.push((v, t.clone())); let p = self.pat(t, d - 1, binds); return RtPat::Var(v, ct, Some(Box::new(p))) }
            _ => {}
        }
        if d == 0 && matches!(t, T::St(_) | T::Da(_) | T::P(_) | T::Syn(_)) { return RtPat::Wildcard(ct) }
        let d = d.saturating_sub(1);
        match t {
            T::I(g, w) => { let sg = if self.s.below(4) == 0 { !*g } else { *g }; RtPat::Const(Const::Integer(ct, sg, lit(*g, *w, self.s.below(4)))) }
            T::Char => RtPat::Const(Const::Char(['a', 'b'][self.s.below(2) as usize])),
            T::Str => RtPat::Const(self.cst(&T::Str).unwrap()),
            T::Unit => RtPat::Const(Const::Unit),
            T::St(i) => { let fs = self.w.structs[*i].1.clone(); RtPat::Struct(ct, fs.iter().map(|f| self.pat(f, d, binds)).collect()) }
            T::Da(i) => { let k = self.s.below(self.w.datas[*i].2.len() as u64) as usize; let fs = self.w.datas[*i].2[k].clone(); RtPat::Data(ct, k, fs.iter().map(|f| self.pat(f, d, binds)).collect()) }
            T::P(e) => match self.s.below(5) { 0 => RtPat::Null(self.w.to_ct(e)), 1 => RtPat::deref(self.pat(e, d, binds)), _ => RtPat::non_null(self.pat(e, d, binds)) },
            T::Syn(e) => RtPat::syntax(self.pat(e, d, binds)),
            T::F32 | T::F64 => RtPat::Const(self.cst(t).unwrap()),
            _ => RtPat::Wildcard(ct),
        }
    }
    pub fn expr(&mut self, t: &T, d: u32) -> Rt {
        self.size -= 1;
        if d == 0 || self.size <= 0 { return self.leaf(t) }
        let full = self.w.mode == Mode::Full;
        let ct = self.w.to_ct(t);
        match self.s.below(26) {
            0 | 1 => { let n = 1 + self.s.below(2); let (vs, b) = self.let_(n, d, |g| g.expr(t, d - 1)); return Rt::let_var(vs, b) }
            2 => { let c = self.expr(&BOOL, d - 1); let (a, b) = (self.expr(t, d - 1), self.expr(t, d - 1)); return Rt::if_(c, a, b) }
            3 => { let n = 1 + self.s.below(2); let ss = (0..n).map(|_| self.stmt(d)).collect(); let e = self.expr(t, d - 1); return Rt::seq(ss, e) }
            4 if !full => {
                let n = 1 + self.s.below(3);
                let cs: Vec<(RtId, Vec<T>)> = (0..n).map(|_| { let k = self.s.below(3); (self.w.rt.next(), (0..k).map(|_| self.w.any(self.s)).collect()) }).collect();
                let body = self.tail(t, &cs, d - 1);
                let conts = cs.iter().map(|(id, ps)| {
                    let at = self.scope.len();
                    let ps = ps.iter().map(|p| { let v = self.w.rt.next(); self.scope.push((v, p.clone())); RtParam::new(v, self.w.to_ct(p)) }).collect();
                    let b = self.expr(t, d - 1);
                    self.scope.truncate(at);
                    RtCont::new(*id, ps, b)
                }).collect();
                return Rt::LetCont(Box::new((conts, body)));
            }
            5 | 6 if full => {
                let mt = self.w.any(self.s);
                let mut e = self.expr(&mt, d - 1);
                if let (T::P(el), true) = (&mt, self.s.bool()) {
                    let c = self.expr(&BOOL, d - 1);
                    let null = Rt::nullary(Nullary::Null(self.w.to_ct(el)));
                    e = if self.s.bool() { Rt::if_(c, null, e) } else { Rt::if_(c, e, null) };
                }
                let n = self.s.below(4);
                let mut cl = vec![];
                for i in 0..=n {
                    let at = self.scope.len();
                    let mut binds = vec![];
                    let p = if i == n { let c = self.w.to_ct(&mt); if self.s.bool() { RtPat::Wildcard(c) } else { let v = self.w.rt.next(); binds.push((v, mt.clone())); RtPat::Var(v, c, None) } } else { self.pat(&mt, 3, &mut binds) };
                    self.scope.extend(binds);
                    let b = self.expr(t, d - 1);
                    self.scope.truncate(at);
                    cl.push(RtClause::new(p, b));
                }
                return Rt::match_(e, cl);
            }
            7 if full && d > 1 => {
                let n = 1 + self.s.below(2);
                let (at, lat) = (self.scope.len(), self.lfs.len());
                let ret = self.ret.take();
                let mut fs = vec![];
                let mut sigs = vec![];
                for _ in 0..n {
                    let k = self.s.below(3);
                    let ps: Vec<T> = (0..k).map(|_| self.w.any(self.s)).collect();
                    let r = self.w.plain(self.s);
                    let id = self.w.rt.next();
                    let at = self.scope.len();
                    let rps = ps.iter().map(|p| { let v = self.w.rt.next(); self.scope.push((v, p.clone())); RtParam::new(v, self.w.to_ct(p)) }).collect();
                    self.ret = Some(r.clone());
                    let b = self.expr(&r, d - 1);
                    self.scope.truncate(at);
                    fs.push(RtLocalFun::new(id, vec![], rps, self.w.to_ct(&r), b));
                    sigs.push((id, ps, r));
                    self.lfs.push(sigs.last().unwrap().clone());
                }
                self.ret = ret;
                let b = self.expr(t, d - 1);
                self.lfs.truncate(lat);
                self.scope.truncate(at);
                return Rt::let_local_fun(fs, b);
            }
            8 | 9 if !self.pure => {
                let c: Vec<(Vec<T>, Option<RtId>)> = self.w.funs.iter().filter(|f| f.ret == *t).map(|f| (f.params.clone(), None))
                    .chain(self.lfs.iter().filter(|f| f.2 == *t).map(|f| (f.1.clone(), None)))
                    .chain(self.scope.iter().filter_map(|(id, v)| match v { T::Cl(a, r) if **r == *t => Some((a.clone(), Some(*id))), _ => None })).collect();
                if !c.is_empty() {
                    let (ps, v) = c[self.s.below(c.len() as u64) as usize].clone();
                    let a: Vec<Rt> = ps.iter().map(|p| self.near(p, d - 1)).collect();
                    let f = match v { Some(id) => Rt::Var(id, self.w.to_ct(&T::Cl(ps, Box::new(t.clone())))), None => self.closure(&ps, t, d) };
                    return Rt::call(RtCallee::Standard(f), a);
                }
            }
            10 => {
                let c: Vec<usize> = (0..self.w.host.len()).filter(|i| self.w.host[*i].ret == *t).collect();
                if !c.is_empty() {
                    let h = c[self.s.below(c.len() as u64) as usize];
                    let (ps, addr) = (self.w.host[h].params.clone(), self.w.host[h].addr);
                    // the order in which C arguments are evaluated is not observed
                    let pure = std::mem::replace(&mut self.pure, true);
                    let r = self.ret.take();
                    let a: Vec<Rt> = ps.iter().map(|p| self.expr(p, d - 1)).collect();
                    self.pure = pure;
                    self.ret = r;
                    return Rt::call(RtCallee::CIndirect(Rt::unary(Unary::IToPtr(Ct::Unit), int(&U64, addr)), ct), a);
                }
            }
            11 | 12 => {
                let c: Vec<(usize, usize)> = self.w.structs.iter().enumerate().flat_map(|(i, s)| s.1.iter().enumerate().filter(|f| f.1 == t).map(move |f| (i, f.0)).collect::<Vec<_>>()).collect();
                if !c.is_empty() {
                    let (i, k) = c[self.s.below(c.len() as u64) as usize];
                    let e = self.expr(&T::St(i), d - 1);
                    return Rt::unary(Unary::StructElem(ct, k), e);
                }
            }
            13 => {
                // a cell read back, possibly on the stack (it does not escape)
                let e = self.expr(t, d - 1);
                let loc = if !full && self.s.bool() { Location::StackStatic } else { Location::Heap };
                return Rt::unary(Unary::Load, Rt::alloc(loc, e));
            }
            18 if full && !self.pure && matches!(t, T::I(..)) => { let e = self.expr(t, d - 1); return Rt::call(RtCallee::CDirect("obs".into(), ct), vec![e]) }
            19 if full && self.s.bool() => { let e = self.expr(&T::Syn(Box::new(t.clone())), d - 1); return Rt::unary(Unary::SyntaxBody, e) }
            14 if *t != T::Unit => { let e = self.near(&T::P(Box::new(t.clone())), d - 1); return Rt::unary(Unary::Load, e) }
            15 => {
                let (n, at) = (1 + self.s.below(4), T::Arr(Box::new(t.clone())));
                let (a, ac) = (self.w.rt.next(), self.w.to_ct(&at));
                let mut ss: Vec<Rt> = vec![];
                for i in 0..n { let e = self.expr(t, d - 1); ss.push(Rt::ternary(Ternary::ArrayStore, int(&U64, i), e, Rt::Var(a, ac.clone()))); }
                let i = self.s.below(n);
                let get = Rt::binary(Binary::ArrayLoad, int(&U64, i), Rt::Var(a, ac.clone()));
                return Rt::let_var(vec![RtVar::new(a, ac, Rt::alloc_array(Location::Heap, ct, int(&U64, n)))], Rt::seq(ss, get));
            }
            16 => {
                let c: Vec<usize> = (0..self.w.unions.len()).filter(|i| self.w.unions[*i].1.contains(t)).collect();
                if !c.is_empty() {
                    let u = Ct::Id(self.w.unions[c[self.s.below(c.len() as u64) as usize]].0);
                    let e = self.expr(t, d - 1);
                    return Rt::unary(Unary::Reinterpret(ct), Rt::unary(Unary::Reinterpret(u), e));
                }
            }
            17 => if let (Some(r), false) = (self.ret.clone(), self.pure) {
                let c = self.expr(&BOOL, d - 1);
                let (r, e) = (self.expr(&r, d - 1), self.expr(t, d - 1));
                return Rt::if_(c, Rt::return_(r), e);
            },
            _ => {}
        }
        self.op(t, d - 1).unwrap_or_else(|| self.leaf(t))
    }
    fn op(&mut self, t: &T, d: u32) -> Option<Rt> {
        let ct = self.w.to_ct(t);
        let full = self.w.mode == Mode::Full;
        Some(match t {
            T::I(false, 1) => match self.s.below(10) {
                0 => Rt::unary(Unary::Not, self.expr(&BOOL, d)),
                1 | 2 => {
                    let f = if self.s.bool() { T::F32 } else { T::F64 };
                    let op = [Binary::FEq, Binary::FLt, Binary::FLe, Binary::FGt, Binary::FGe][self.s.below(5) as usize].clone();
                    let (a, b) = (self.expr(&f, d), self.expr(&f, d)); Rt::binary(op, a, b)
                }
                3 => { let (a, b) = (self.expr(&T::Str, d), self.expr(&T::Str, d)); Rt::binary(Binary::StringEq, a, b) }
                4 if full => { let (a, b) = (self.expr(&BOOL, d), self.expr(&BOOL, d)); if self.s.bool() { Rt::and(a, b) } else { Rt::or(a, b) } }
                _ => {
                    let g = self.s.bool();
                    let i = T::I(g, [8, 16, 32, 64][self.s.below(4) as usize]);
                    let (a, b) = (self.expr(&i, d), self.expr(&i, d));
                    use Binary::*;
                    let ops = if g { [IEq, SLt, SLe, SGt, SGe] } else { [IEq, ULt, ULe, UGt, UGe] };
                    Rt::binary(ops[self.s.below(5) as usize].clone(), a, b)
                }
            },
            T::I(g, w) => match self.s.below(14) {
                0 => { let op = if self.s.bool() { Unary::IComplement } else { Unary::IPopCount }; Rt::unary(op, self.expr(t, d)) }
                1 => { let op = [Binary::IShl, Binary::IAShr, Binary::ILShr][self.s.below(3) as usize].clone(); let a = self.expr(t, d); let n = self.s.below(*w as u64); Rt::binary(op, a, int(t, n)) }
                2 => {
                    let v = loop { let v = mask(self.s.u64(), *w); if v != 0 && !(*g && v == mask(!0, *w)) { break v } };
                    let a = self.expr(t, d);
                    let op = match (g, self.s.bool()) { (true, true) => Binary::SDiv, (true, _) => Binary::SRem, (false, true) => Binary::UDiv, _ => Binary::URem };
                    Rt::binary(op, a, int(t, v))
                }
                3 if *w < 64 => { let k = T::I(*g, if *w < 32 && self.s.bool() { 32 } else { 64 }); if k == *t { return None } Rt::unary(Unary::ITrunc(ct), self.expr(&k, d)) }
                4 if *w > 8 => { let k = loop { let k = 8usize << self.s.below(3); if k < *w { break k } }; let sg = self.s.bool(); let e = self.expr(&T::I(sg, k), d); Rt::unary(if sg { Unary::SExt(ct) } else { Unary::UExt(ct) }, e) }
                5 => {
                    // in range: an integer of at most this width, and a fraction
                    let f = if self.s.bool() { T::F32 } else { T::F64 };
                    let k = T::I(*g, if *w > 8 && self.s.bool() { 16 } else { 8 });
                    let e = self.expr(&k, d);
                    let fc = self.w.to_ct(&f);
                    let e = Rt::unary(if *g { Unary::SToF(fc.clone()) } else { Unary::UToF(fc.clone()) }, e);
                    let e = Rt::binary(Binary::FAdd, e, Rt::Const(Const::FPNumber(fc, (if self.s.bool() { 0.75 } else { 0.25 }).into())));
                    Rt::unary(if *g { Unary::FToS(ct) } else { Unary::FToU(ct) }, e)
                }
                6 if *t == U64 => match self.s.below(3) {
                    0 => Rt::unary(Unary::StringLength, self.expr(&T::Str, d)),
                    1 => { let e = self.w.plain(self.s); Rt::unary(Unary::ArrayLength, self.expr(&T::Arr(Box::new(e)), d)) }
                    _ => { let e = self.w.plain(self.s); if full { return None } let c = self.w.to_ct(&e); Rt::nullary(if self.s.bool() { Nullary::SizeOf(c) } else { Nullary::AlignOf(c) }) }
                },
                _ => {
                    use Binary::*;
                    let ops = if *g { [IAnd, IOr, IXor, SAdd, SSub, SMul] } else { [IAnd, IOr, IXor, UAdd, USub, UMul] };
                    let op = ops[self.s.below(6) as usize].clone();
                    let (a, b) = (self.expr(t, d), self.expr(t, d));
                    Rt::binary(op, a, b)
                }
            },
            T::F32 | T::F64 => match self.s.below(6) {
                0 => { let g = self.s.bool(); let k = T::I(g, [8, 16, 32, 64][self.s.below(4) as usize]); let e = self.expr(&k, d); Rt::unary(if g { Unary::SToF(ct) } else { Unary::UToF(ct) }, e) }
                1 => if *t == T::F32 { Rt::unary(Unary::FTrunc(ct), self.expr(&T::F64, d)) } else { Rt::unary(Unary::FExt(ct), self.expr(&T::F32, d)) },
                _ => { use Binary::*; let op = [FAdd, FSub, FMul, FDiv][self.s.below(4) as usize].clone(); let (a, b) = (self.expr(t, d), self.expr(t, d)); Rt::binary(op, a, b) }
            },
            T::Str => { let (a, b) = (self.expr(t, d), self.expr(t, d)); Rt::binary(Binary::StringConcat, a, b) }
            T::St(i) => { let fs = self.w.structs[*i].1.clone(); let a = fs.iter().map(|f| self.expr(f, d)).collect(); Rt::construct_struct(ct, a) }
            T::Un(i) => { let ts = self.w.unions[*i].1.clone(); let k = self.s.below(ts.len() as u64) as usize; let e = self.expr(&ts[k], d); Rt::unary(Unary::Reinterpret(ct), e) }
            T::Da(i) => { let k = self.s.below(self.w.datas[*i].2.len() as u64) as usize; let a = self.w.datas[*i].2[k].clone(); let a = a.iter().map(|f| self.expr(f, d)).collect(); Rt::construct_data(ct, k, a) }
            T::P(e) => Rt::alloc(Location::Heap, self.expr(e, d)),
            T::Syn(e) => { let e = self.expr(e, d); Rt::construct_syntax(loc(), e) }
            T::Cl(a, r) => { let (a, r) = (a.clone(), r.clone()); self.closure(&a, &r, d) }
            T::Unit => if d > 1 { self.stmt(d); let s = self.stmt(d); Rt::seq(vec![s], Rt::Const(Const::Unit)) } else { return None },
            _ => return None,
        })
    }
}
pub fn int(t: &T, v: u64) -> Rt {
    let T::I(g, w) = t else { unreachable!() };
    Rt::Const(Const::Integer(if *g { Ct::S(*w) } else { Ct::U(*w) }, *g, lit(*g, *w, v)))
}

// ------------------------------------------------------------------ meaning
#[derive(Clone, Debug)]
pub enum V { I(u64), F32(f32), F64(f64), Ch(char), Unit, St(Vec<V>), Re(Box<V>, Ct), Da(usize, Vec<V>), P(usize, u64), Null, Str(Rc<Vec<u8>>), Arr(usize, u64, u64), Cl(CtId, Option<Rc<Vec<V>>>), Lf(usize), Env(Rc<Vec<V>>), Syn(Box<V>), Undef }
pub enum Ctl { Ret(V), Cont(RtId, Vec<V>), Stop(String) }
type R = Result<V, Ctl>;
pub fn mask(v: u64, w: usize) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
pub fn sx(v: u64, w: usize) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(a), V::I(b)) => a == b, (V::Ch(a), V::Ch(b)) => a == b, (V::Unit, V::Unit) => true, (V::Str(a), V::Str(b)) => a == b,
        (V::F32(a), V::F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (V::F64(a), V::F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (V::St(a), V::St(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        _ => false,
    }
}
pub struct Interp<'a> { pub defs: &'a HashMap<CtId, Arc<Def>>, pub heap: Vec<Vec<V>>, pub fuel: u64, pub hosts: &'a [Host], lfs: Vec<(RtLocalFun, HashMap<RtId, V>)>, pub size_of: &'a dyn Fn(&Ct) -> (usize, usize), pub trace: Vec<u64>, dead: Vec<bool>, frames: Vec<HashMap<usize, usize>> }
fn stop<T>(s: &str) -> Result<T, Ctl> { Err(Ctl::Stop(s.to_string())) }
pub fn w_of(ct: &Ct) -> usize { match ct { Ct::S(w) | Ct::U(w) => *w, _ => 64 } }
impl<'a> Interp<'a> {
    pub fn new(defs: &'a HashMap<CtId, Arc<Def>>, hosts: &'a [Host], size_of: &'a dyn Fn(&Ct) -> (usize, usize)) -> Self { Interp { defs, heap: vec![], fuel: 20000, hosts, lfs: vec![], size_of, trace: vec![], dead: vec![], frames: vec![HashMap::new()] } }
    pub fn run(&mut self, rt: &Rt) -> Result<V, String> {
        match self.eval(rt, &mut HashMap::new()) { Ok(v) => Ok(v), Err(Ctl::Ret(v)) => Ok(v), Err(Ctl::Cont(..)) => Err("continuation escaped".into()), Err(Ctl::Stop(s)) => Err(s) }
    }
    fn call(&mut self, f: V, args: Vec<V>) -> R {
        let (body, mut env) = match f {
            V::Cl(id, env) => {
                let Some(Def::Function(f)) = self.defs.get(&id).map(|d| &**d) else { return stop("not a function") };
                let f = f.clone();
                let mut e: HashMap<RtId, V> = f.params.iter().map(|p| p.id).zip(args).collect();
                if let Some(fe) = &f.env {
                    let Some(vs) = env else { return stop("a function called without its environment") };
                    if vs.len() != fe.elems.len() { return stop("environment of another shape") }
                    e.insert(fe.id, V::Env(vs.clone()));
                    for (p, v) in fe.elems.iter().zip(vs.iter()) { e.insert(p.id, v.clone()); }
                }
                (f.body, e)
            }
            V::Lf(i) => { let (f, mut e) = self.lfs[i].clone(); for (p, v) in f.params.iter().zip(args) { e.insert(p.id, v); } (f.body, e) }
            _ => return stop("call of no function"),
        };
        self.frames.push(HashMap::new());
        let r = match self.eval(&body, &mut env) { Err(Ctl::Ret(v)) => Ok(v), r => r };
        for (_, o) in self.frames.pop().unwrap() { self.dead[o] = true }
        r
    }
    fn alloc(&mut self, v: Vec<V>) -> usize { self.heap.push(v); self.dead.push(false); self.heap.len() - 1 }
    /// One cell per place in the code and activation of its function.
    fn alloc_static(&mut self, v: V, site: usize) -> usize {
        if let Some(o) = self.frames.last().unwrap().get(&site) { let o = *o; self.heap[o] = vec![v]; return o }
        let o = self.alloc(vec![v]);
        self.frames.last_mut().unwrap().insert(site, o);
        o
    }
    fn cell(&mut self, p: &V, i: u64) -> Result<&mut V, Ctl> {
        let (o, k) = match p { V::P(o, k) => (*o, k + i), V::Arr(o, k, n) => { if i >= *n { return stop("index out of range") } (*o, k + i) } _ => return stop("no pointer") };
        if self.dead[o] { return stop("a cell of a function that has returned") }
        match self.heap[o].get_mut(k as usize) { Some(v) => Ok(v), None => stop("out of bounds") }
    }
    fn matches(&mut self, p: &RtPat, v: &V, b: &mut Vec<(RtId, V)>) -> Result<bool, Ctl> {
        Ok(match p {
            RtPat::Var(id, _, q) => { b.push((*id, v.clone())); match q { Some(q) => self.matches(q, v, b)?, None => true } }
            RtPat::Wildcard(_) => true,
            RtPat::Deref(q) => { let c = self.cell(v, 0)?.clone(); self.matches(q, &c, b)? }
            RtPat::NonNull(q) => { if matches!(v, V::Null) { false } else { let c = self.cell(v, 0)?.clone(); self.matches(q, &c, b)? } }
            RtPat::Null(_) => matches!(v, V::Null),
            RtPat::Data(_, k, ps) => { let V::Da(i, vs) = v else { return stop("no data") }; if i != k { false } else { self.all(ps, vs, b)? } }
            RtPat::Struct(_, ps) => { let V::St(vs) = v else { return stop("no struct") }; self.all(ps, vs, b)? }
            RtPat::Reinterpret(_, q) => { let to = q.ty().into_owned(); let r = self.reinterpret(v.clone(), &to); match r { Ok(r) => self.matches(q, &r, b)?, Err(e) => return Err(e) } }
            RtPat::Syntax(q) => { let V::Syn(x) = v else { return stop("no syntax") }; self.matches(q, x, b)? }
            RtPat::Const(c) => match (self.cst(c)?, v) { (V::F32(a), V::F32(b)) => a == *b, (V::F64(a), V::F64(b)) => a == *b, (c, v) => same(&c, v) },
        })
    }
    fn all(&mut self, ps: &[RtPat], vs: &[V], b: &mut Vec<(RtId, V)>) -> Result<bool, Ctl> {
        for (p, v) in ps.iter().zip(vs) { if !self.matches(p, v, b)? { return Ok(false) } }
        Ok(true)
    }
    fn reinterpret(&mut self, v: V, to: &Ct) -> R {
        Ok(match v { V::Re(x, from) => if from == *to { *x } else { V::Re(x, from) }, v => V::Re(Box::new(v), Ct::Env) })
    }
    fn cst(&mut self, c: &Const) -> R {
        Ok(match c {
            Const::Integer(ct, g, v) => match ct {
                Ct::F32 => V::F32(if *g { *v as i64 as f64 as f32 } else { *v as f64 as f32 }), Ct::F64 => V::F64(if *g { *v as i64 as f64 } else { *v as f64 }),
                ct => V::I(mask(*v, w_of(ct))),
            },
            Const::FPNumber(Ct::F32, f) => V::F32(f.into_inner() as f32), Const::FPNumber(_, f) => V::F64(f.into_inner()),
            Const::String(s) => V::Str(Rc::new(s.as_bytes().to_vec())), Const::Char(c) => V::Ch(*c), Const::Unit => V::Unit,
            Const::SyntaxSexp(..) => return stop("syntax constant"),
        })
    }
    fn list(&mut self, es: &[Rt], env: &mut HashMap<RtId, V>) -> Result<Vec<V>, Ctl> { let mut r = vec![]; for e in es { r.push(self.eval(e, env)?) } Ok(r) }
    pub fn eval(&mut self, rt: &Rt, env: &mut HashMap<RtId, V>) -> R {
        if self.fuel == 0 { return stop("fuel") }
        self.fuel -= 1;
        Ok(match rt {
            Rt::Var(id, _) => match env.get(id) { Some(v) => v.clone(), None => return stop("variable out of scope") },
            Rt::LocalFun(i) => match env.get(&i.fun) { Some(v) => v.clone(), None => return stop("local function out of scope") },
            Rt::StaticFun(c) => { let e = match &c.env { Some(e) => match self.eval(e, env)? { V::Env(v) => Some(v), _ => return stop("no environment") }, None => None }; V::Cl(c.fun.id(), e) }
            Rt::Const(c) => self.cst(c)?,
            Rt::Call(c) => {
                let args = self.list(&c.args, env)?;
                match &c.callee {
                    RtCallee::Standard(f) => { let f = self.eval(f, env)?; self.call(f, args)? }
                    RtCallee::CIndirect(a, _) => { let V::I(a) = self.eval(a, env)? else { return stop("no address") }; let Some(h) = self.hosts.iter().find(|h| h.addr == a) else { return stop("unknown address") }; (h.f)(&args) }
                    RtCallee::CDirect(n, _) if n == "obs" => { if let V::I(v) = &args[0] { self.trace.push(*v) } args.into_iter().next().unwrap() }
                    _ => return stop("foreign call"),
                }
            }
            Rt::ContCall(c) => { let a = self.list(&c.args, env)?; return Err(Ctl::Cont(c.cont, a)) }
            Rt::Nullary(n) => match n {
                Nullary::Uninitialized(_) => V::Undef, Nullary::Null(_) => V::Null, Nullary::GenId => return stop("genid"),
                Nullary::SizeOf(t) => V::I((self.size_of)(t).0 as u64), Nullary::AlignOf(t) => V::I((self.size_of)(t).1 as u64),
            },
            Rt::Unary(u) => { let a = self.eval(&u.1, env)?; self.unary(&u.0, a, &u.1)? }
            Rt::Binary(b) => { let x = self.eval(&b.1, env)?; let y = self.eval(&b.2, env)?; self.binary(&b.0, x, y, &b.1)? }
            Rt::Ternary(t) => {
                let (a, b, c) = (self.eval(&t.1, env)?, self.eval(&t.2, env)?, self.eval(&t.3, env)?);
                match t.0 {
                    Ternary::ArrayStore => { let V::I(i) = a else { return stop("no index") }; *self.cell(&c, i)? = b; }
                    _ => { let V::I(n) = b else { return stop("no length") }; let mut tmp = vec![]; for i in 0..n { tmp.push(self.cell(&a, i)?.clone()) } for (i, v) in tmp.into_iter().enumerate() { *self.cell(&c, i as u64)? = v } }
                }
                V::Unit
            }
            Rt::Alloc(a) => { let v = self.eval(&a.1, env)?; let o = if a.0 == Location::StackStatic { self.alloc_static(v, &**a as *const _ as usize) } else { self.alloc(vec![v]) }; V::P(o, 0) }
            Rt::AllocArray(a) => { let V::I(n) = self.eval(&a.2, env)? else { return stop("no length") }; if n > 1000 { return stop("array") } let o = self.alloc(vec![V::Undef; n as usize]); V::Arr(o, 0, n) }
            Rt::ConstructEnv(c) => V::Env(Rc::new(self.list(&c.1, env)?)),
            Rt::ConstructData(c) => V::Da(c.1, self.list(&c.2, env)?),
            Rt::ConstructStruct(c) => V::St(self.list(&c.1, env)?),
            Rt::ConstructSyntax(c) => V::Syn(Box::new(self.eval(&c.1, env)?)),
            Rt::Seq(s) => { self.list(&s.0, env)?; self.eval(&s.1, env)? }
            Rt::If(i) => if self.bool(&i.0, env)? { self.eval(&i.1, env)? } else { self.eval(&i.2, env)? },
            Rt::While(w) => { while self.bool(&w.0, env)? { self.eval(&w.1, env)?; } V::Unit }
            Rt::And(a) => if self.bool(&a.0, env)? { self.eval(&a.1, env)? } else { V::I(0) },
            Rt::Or(a) => if self.bool(&a.0, env)? { V::I(1) } else { self.eval(&a.1, env)? },
            Rt::Match(m) => {
                let v = self.eval(&m.0, env)?;
                for c in &m.1 {
                    let mut b = vec![];
                    if self.matches(&c.pat, &v, &mut b)? { for (i, v) in b { env.insert(i, v); } return self.eval(&c.body, env) }
                }
                return stop("no clause matches");
            }
            Rt::Return(e) => { let v = self.eval(e, env)?; return Err(Ctl::Ret(v)) }
            Rt::Never => return stop("never"),
            Rt::LetLocalFun(l) => {
                // functions see the variables of their scope as they are, and each other
                let at = self.lfs.len();
                for (i, f) in l.0.iter().enumerate() { env.insert(f.id, V::Lf(at + i)); }
                for f in &l.0 { self.lfs.push((f.clone(), HashMap::new())); }
                for i in 0..l.0.len() { self.lfs[at + i].1 = env.clone(); }
                self.eval(&l.1, env)?
            }
            Rt::LetVar(l) => { for v in &l.0 { let x = self.eval(&v.init, env)?; env.insert(v.id, x); } self.eval(&l.1, env)? }
            Rt::LetCont(l) => {
                let mut r = self.eval(&l.1, env);
                while let Err(Ctl::Cont(id, args)) = r {
                    match l.0.iter().find(|c| c.id == id) {
                        Some(c) => { if c.params.len() != args.len() { return stop("arguments of a continuation") } for (p, a) in c.params.iter().zip(args) { env.insert(p.id, a); } r = self.eval(&c.body, env); }
                        None => return Err(Ctl::Cont(id, args)),
                    }
                }
                r?
            }
        })
    }
    fn bool(&mut self, e: &Rt, env: &mut HashMap<RtId, V>) -> Result<bool, Ctl> { match self.eval(e, env)? { V::I(v) => Ok(v != 0), _ => stop("no bool") } }
    fn unary(&mut self, op: &Unary, a: V, ae: &Rt) -> R {
        use Unary::*;
        Ok(match (op, a) {
            (Not, V::I(v)) => V::I(v ^ 1),
            (Load, p) => self.cell(&p, 0)?.clone(),
            (StructElem(_, i), V::St(v)) => v[*i].clone(),
            (StructElem(..), V::Re(..)) => V::Undef,
            (Reinterpret(to), v) => { let from = ae.ty().unwrap().into_owned(); match v { V::Re(x, f) if f == *to => *x, V::Re(x, f) => V::Re(x, f), v => V::Re(Box::new(v), from) } }
            (SyntaxBody, V::Syn(v)) => *v,
            (BitCast(_) | PtrToI | IToPtr(_), v) => v,
            (IComplement, V::I(v)) => V::I(mask(!v, w_of(&ae.ty().unwrap()))),
            (IPopCount, V::I(v)) => V::I(v.count_ones() as u64),
            (ITrunc(t), V::I(v)) => V::I(mask(v, w_of(t))),
            (SExt(t), V::I(v)) => V::I(mask(sx(v, w_of(&ae.ty().unwrap())) as u64, w_of(t))),
            (UExt(_), V::I(v)) => V::I(v),
            (SToF(t), V::I(v)) => { let v = sx(v, w_of(&ae.ty().unwrap())); if *t == Ct::F32 { V::F32(v as f32) } else { V::F64(v as f64) } }
            (UToF(t), V::I(v)) => if *t == Ct::F32 { V::F32(v as f32) } else { V::F64(v as f64) },
            (FToS(t), V::F32(v)) => V::I(mask(v as i64 as u64, w_of(t))), (FToS(t), V::F64(v)) => V::I(mask(v as i64 as u64, w_of(t))),
            (FToU(t), V::F32(v)) => V::I(mask(v as u64, w_of(t))), (FToU(t), V::F64(v)) => V::I(mask(v as u64, w_of(t))),
            (FTrunc(_), V::F64(v)) => V::F32(v as f32), (FExt(_), V::F32(v)) => V::F64(v as f64),
            (StringLength, V::Str(s)) => V::I(s.len() as u64),
            (ArrayLength, V::Arr(_, _, n)) => V::I(n), (ArrayPtr, V::Arr(o, k, _)) => V::P(o, k),
            (op, v) => return stop(&format!("{:?} of {:?}", op, v)),
        })
    }
    fn binary(&mut self, op: &Binary, a: V, b: V, ae: &Rt) -> R {
        use Binary::*;
        let bo = |b: bool| Ok(V::I(b as u64));
        match (op, a, b) {
            (Store, v, p) => { *self.cell(&p, 0)? = v; Ok(V::Unit) }
            (ArrayConstruct, V::P(o, k), V::I(n)) => Ok(V::Arr(o, k, n)),
            (ArrayLoad, V::I(i), p) => Ok(self.cell(&p, i)?.clone()),
            (Offset, V::I(i), V::P(o, k)) => Ok(V::P(o, k.wrapping_add(i))),
            (StringEq, V::Str(a), V::Str(b)) => bo(a == b),
            (StringConcat, V::Str(a), V::Str(b)) => Ok(V::Str(Rc::new([&a[..], &b[..]].concat()))),
            (op, V::I(a), V::I(b)) => {
                let w = w_of(&ae.ty().unwrap());
                let (x, y) = (sx(a, w), sx(b, w));
                let n = |v: u64| Ok(V::I(mask(v, w)));
                match op {
                    IEq => bo(a == b), SLt => bo(x < y), SLe => bo(x <= y), SGt => bo(x > y), SGe => bo(x >= y), ULt => bo(a < b), ULe => bo(a <= b), UGt => bo(a > b), UGe => bo(a >= b),
                    IShl => n(a << b), ILShr => n(a >> b), IAShr => n((x >> b) as u64), IAnd => n(a & b), IOr => n(a | b), IXor => n(a ^ b),
                    SAdd | UAdd => n(a.wrapping_add(b)), SSub | USub => n(a.wrapping_sub(b)), SMul | UMul => n(a.wrapping_mul(b)),
                    SDiv => n((x / y) as u64), SRem => n((x % y) as u64), UDiv => n(a / b), URem => n(a % b),
                    _ => stop("operator"),
                }
            }
            (IEq, V::Ch(a), V::Ch(b)) => bo(a == b),
            (PtrEq, a @ (V::P(..) | V::Null), b @ (V::P(..) | V::Null)) => bo(match (a, b) { (V::P(a, i), V::P(b, j)) => a == b && i == j, (V::Null, V::Null) => true, _ => false }),
            (op, V::F32(a), V::F32(b)) => match op { FEq => bo(a == b), FLt => bo(a < b), FLe => bo(a <= b), FGt => bo(a > b), FGe => bo(a >= b), FAdd => Ok(V::F32(a + b)), FSub => Ok(V::F32(a - b)), FMul => Ok(V::F32(a * b)), FDiv => Ok(V::F32(a / b)), _ => stop("operator") },
            (op, V::F64(a), V::F64(b)) => match op { FEq => bo(a == b), FLt => bo(a < b), FLe => bo(a <= b), FGt => bo(a > b), FGe => bo(a >= b), FAdd => Ok(V::F64(a + b)), FSub => Ok(V::F64(a - b)), FMul => Ok(V::F64(a * b)), FDiv => Ok(V::F64(a / b)), _ => stop("operator") },
            (op, a, b) => stop(&format!("{:?} of {:?} and {:?}", op, a, b)),
        }
    }
}
