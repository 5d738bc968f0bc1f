//! C12: tokens to expressions and back.
#![cfg(not(kani))]
use crate::c11::{text, tokens, Tok};
use kit::*;
use llrl::lexer::{lex, Lexer};
use llrl::parser::parse;
use llrl::path::Path;
use llrl::sexp::{Sexp, SexpRep, Ss};
use llrl::source_loc::{SourceLocationTable, SourceLocator};
use llrl::token::TokenRep;

/// An expression and the range of the text it was read from.
#[derive(Clone, Debug)]
pub enum E { Int(bool, u64), Num(f64), Sym(String), Str(String), Chr(char), Bool(bool), List(Vec<N>), Dotted(Vec<N>, Box<N>) }
#[derive(Clone, Debug)]
pub struct N { pub e: E, pub at: Option<(usize, usize)> }
fn n(e: E) -> N { N { e, at: None } }

struct P { t: Vec<Tok>, i: usize }
impl P {
    fn look(&self) -> Option<&TokenRep> { self.t.get(self.i).map(|t| &t.rep) }
    fn eat(&mut self, r: TokenRep) -> Result<(), usize> { if self.look() == Some(&r) { self.i += 1; Ok(()) } else { Err(self.i) } }
    fn more(&self) -> bool { match self.look() { None | Some(TokenRep::Dot | TokenRep::At | TokenRep::Question | TokenRep::Exclamation | TokenRep::RParen | TokenRep::RBrack | TokenRep::RBrace) => false, _ => true } }
    fn seq(&mut self) -> Result<Vec<N>, usize> { let mut r = vec![]; while self.more() { r.push(self.sexp()?) } Ok(r) }
    fn sexp(&mut self) -> Result<N, usize> {
        let st = self.i;
        let tok = self.look().cloned().ok_or(self.i)?;
        self.i += 1;
        let e = match tok {
            TokenRep::Signed(v) => E::Int(true, v as u64),
            TokenRep::Unsigned(v) => E::Int(false, v),
            TokenRep::FPNumber(v) => E::Num(v),
            TokenRep::Symbol(s) => E::Sym(s),
            TokenRep::String(s) => E::Str(s),
            TokenRep::Char(c) => E::Chr(c),
            TokenRep::True => E::Bool(true),
            TokenRep::False => E::Bool(false),
            TokenRep::LParen => { let b = self.body()?; self.eat(TokenRep::RParen)?; b }
            TokenRep::LBrack => { let b = self.body()?; self.eat(TokenRep::RBrack)?; b }
            TokenRep::Quote => self.mark("quote", st)?,
            TokenRep::Backquote => self.mark("quasiquote", st)?,
            TokenRep::Comma => self.mark("unquote", st)?,
            TokenRep::CommaAt => self.mark("unquote-splicing", st)?,
            TokenRep::Backslash => self.mark("capture", st)?,
            TokenRep::Tilde => self.mark("load", st)?,
            _ => return Err(st),
        };
        let mut s = N { e, at: Some(self.range(st)) };
        loop {
            let name = match self.look() { Some(TokenRep::Question) => "try?", Some(TokenRep::Exclamation) => "try!", Some(TokenRep::LBrace) => "annotate", _ => break Ok(s) };
            self.i += 1;
            let mut ls = vec![n(E::Sym(name.into())), s];
            if name == "annotate" { ls.extend(self.seq()?); self.eat(TokenRep::RBrace)?; }
            s = N { e: E::List(ls), at: Some(self.range(st)) };
        }
    }
    fn range(&self, st: usize) -> (usize, usize) { (self.t[st].at, self.t[self.i - 1].end) }
    fn mark(&mut self, name: &str, st: usize) -> Result<E, usize> {
        let q = N { e: E::Sym(name.into()), at: Some(self.range(st)) };
        Ok(E::List(vec![q, self.sexp()?]))
    }
    fn body(&mut self) -> Result<E, usize> {
        let mut items = self.seq()?;
        match self.look() {
            Some(TokenRep::At) => {
                self.i += 1;
                let st = self.i;
                let e = self.body()?;
                let at = if self.i > st { Some(self.range(st)) } else { None };
                items.push(N { e, at });
                Ok(E::List(items))
            }
            Some(TokenRep::Dot) => {
                self.i += 1;
                let last = self.sexp()?;
                if items.is_empty() { return Ok(last.e) }
                Ok(match last.e {
                    E::List(ls) => { items.extend(ls); E::List(items) }
                    E::Dotted(ls, l) => { items.extend(ls); E::Dotted(items, l) }
                    _ => E::Dotted(items, Box::new(last)),
                })
            }
            _ => Ok(E::List(items)),
        }
    }
}
/// The expressions of a text, or the first token that does not fit.
pub fn read(t: &str) -> Result<Vec<N>, (usize, usize)> {
    let toks: Vec<Tok> = tokens(t).into_iter().filter(|t| !t.rep.is_ambient()).collect();
    let end = toks.last().map_or((0, 0), |t| (t.end, t.end));
    let mut p = P { t: toks, i: 0 };
    let r = p.seq().and_then(|r| if p.i < p.t.len() { Err(p.i) } else { Ok(r) });
    r.map_err(|i| p.t.get(i).map_or(end, |t| (t.at, t.end)))
}
fn same(a: &Sexp, b: &N, loc: &dyn Fn(&Sexp) -> (usize, usize)) -> bool {
    if let Some(at) = b.at { if loc(a) != at { fail("an expression is located where its text is") } }
    let all = |x: &[Sexp], y: &[N]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y, loc));
    match (&a.rep, &b.e) {
        (SexpRep::Integer(s, v), E::Int(t, w)) => s == t && v == w,
        (SexpRep::FPNumber(v), E::Num(w)) => v.into_inner().to_bits() == w.to_bits() || v.is_nan() && w.is_nan(),
        (SexpRep::Symbol(s), E::Sym(t)) | (SexpRep::String(s), E::Str(t)) => s == t,
        (SexpRep::Char(c), E::Chr(d)) => c == d,
        (SexpRep::Bool(c), E::Bool(d)) => c == d,
        (SexpRep::List(l), E::List(m)) => all(l, m),
        (SexpRep::ListLike(l), E::Dotted(m, e)) => { let mut x = vec![l.0.clone()]; x.extend(l.1.iter().cloned()); all(&x, m) && same(&l.2, e, loc) }
        _ => false,
    }
}
const BITS: &[&str] = &["(", ")", "(", ")", "[", "]", "{", "}", "(", ")", "'", "`", ",", ",@", "@", "~", "\\", "#t", "#f", " ", " ", " ", "\n", " . ", " ? ", " ! ", "?", "!", "a", "foo", "1", "-5", "2.5", "\"s\"", "#\\x", "#\\\\n", ";c\n", "quote", "try?", "#", "\"", "annotate"];
/// A text by the grammar.
fn by_grammar<S: Src>(s: &mut S, d: u64) -> String {
    let gap = |s: &mut S| ["", "", "", " ", "\n ", ";c\n", "\t"][s.below(7) as usize];
    let mut t = match s.below(if d == 0 { 5 } else { 16 }) {
        k @ (0 | 1) => ["a", "x1"][k as usize].to_string(),
        2 => s.below(100).to_string(),
        3 => ["\"\\n;\"", "#\\(", "#t", "-3", "1.5", "try?"][s.below(6) as usize].to_string(),
        4 => "()".to_string(),
        5..=6 => { let q = ["'", "`", ",", ",@", "~", "\\"][s.below(6) as usize]; format!("{}{}{}", q, gap(s), by_grammar(s, d - 1)) }
        k => {
            let mut b = gap(s).to_string();
            for _ in 0..s.below(4) { b += &by_grammar(s, d - 1); b += [" ", "\n"][s.below(2) as usize]; }
            match k {
                7..=10 => { b += " . "; b += &by_grammar(s, d - 1); }
                11 | 12 => { for _ in 0..1 + s.below(2) { b += "@"; b += gap(s); for _ in 0..s.below(4) { b += &by_grammar(s, d - 1); b += " "; } } if s.bool() { b += " . "; b += &by_grammar(s, d - 1); } }
                _ => {}
            }
            b += gap(s);
            if s.bool() { format!("({})", b) } else { format!("[{}]", b) }
        }
    };
    if s.below(5) == 0 { t += &match s.below(3) { 0 => " ?".to_string(), 1 => " ! ".to_string(), _ => { let mut b = format!("{}{{{}", gap(s), gap(s)); for _ in 0..s.below(3) { b += &by_grammar(s, d.saturating_sub(1)); b += " "; } b + "}" } } }
    t
}
fn source<S: Src>(s: &mut S, max: u64) -> String {
    if s.below(3) == 0 {
        let mut t = String::new();
        for _ in 0..1 + s.below(2) { t += &by_grammar(s, 3); t += " "; }
        return t;
    }
    if s.below(6) == 0 { return text(s, max) }
    let mut t = String::new();
    let mut open: Vec<char> = vec![];
    for _ in 0..s.below(max) {
        let wild = s.below(24) == 0;
        let b = BITS[s.below(BITS.len() as u64) as usize];
        // mostly balanced
        match b {
            "(" => open.push(')'), "[" => open.push(']'), "{" => open.push('}'),
            ")" | "]" | "}" if !wild => { if let Some(c) = open.pop() { t.push(c) } continue }
            _ => {}
        }
        t.push_str(b);
        if s.below(3) == 0 { t.push(' ') }
    }
    if s.below(16) != 0 { while let Some(c) = open.pop() { t.push(c) } }
    t
}
kit::obligation!(reads, native, |s| {
    let t = source(s, 30);
    note(|| format!("{:?}", t));
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&Path::builtin());
    let r = parse::<Ss, _>(&mut locator, Lexer::new(&t));
    table.complete_locate(locator);
    let loc = |x: &Sexp| { let (p, r) = table.review(x.loc); if p != Path::builtin() { fail("a location names its file") } if r.start > r.end { fail("a location does not end before it starts") } (r.start.offset as usize, r.end.offset as usize) };
    match read(&t) {
        Ok(want) => {
            chk!(r.inner_errors.is_empty(), "a well-formed text is read without errors");
            let got = match r.aggregate_errors() { Ok(g) => g, Err(e) => fail(&format!("a well-formed text is read: {}", e)) };
            chk!(got.ss.len() == want.len(), "every expression of a text is read");
            for (g, w) in got.ss.iter().zip(&want) { chk!(same(g, w, &loc), "an expression is what the grammar says"); }
            fn each(x: &Sexp, f: &dyn Fn(&Sexp)) { f(x); match &x.rep { SexpRep::List(l) => l.iter().for_each(|x| each(x, f)), SexpRep::ListLike(l) => { each(&l.0, f); l.1.iter().for_each(|x| each(x, f)); each(&l.2, f) } _ => {} } }
            for g in &got.ss { each(g, &|x| { loc(x); }) }
            if !want.is_empty() { reach!("read"); }
        }
        Err((at, end)) => {
            let first = r.inner_errors.first().or(r.final_result.as_ref().err()).cloned();
            let first = match first { Some(e) => e, None => fail("a text that breaks the grammar is refused") };
            chk!(first.unexpected.range.start.offset as usize == at && first.unexpected.range.end.offset as usize == end, "the first error names the first token that does not fit");
            chk!(r.aggregate_errors().is_err(), "a text that breaks the grammar is refused as a whole");
            reach!("refused");
        }
    }
});
/// One expression alone, from the text of exactly one.
kit::obligation!(one, native, |s| {
    let t = source(s, 12);
    note(|| format!("{:?}", t));
    let toks: Vec<Tok> = tokens(&t).into_iter().filter(|t| !t.rep.is_ambient()).collect();
    let mut p = P { t: toks, i: 0 };
    let want = if p.more() { p.sexp() } else { Err(0) };
    let r = parse::<Sexp, _>(&mut SourceLocator::temporary(), Lexer::new(&t)).aggregate_errors();
    match (want, r) {
        (Ok(w), Ok(g)) => chk!(same(&g, &strip(&w), &|_| (0, 0)), "an expression is what the grammar says"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => fail(&format!("a well-formed expression is read: {}", e)),
        (Err(_), Ok(_)) => fail("a malformed expression is refused"),
    }
    reach!("one");
});
fn strip(x: &N) -> N {
    let v = |l: &Vec<N>| l.iter().map(strip).collect::<Vec<_>>();
    N { at: None, e: match &x.e { E::List(l) => E::List(v(l)), E::Dotted(l, e) => E::Dotted(v(l), Box::new(strip(e))), e => e.clone() } }
}
const SYMS: &[&str] = &["a", "foo", "x/y", "quote", "quasiquote", "unquote", "unquote-splicing", "load", "capture", "try?", "try!", "annotate", "a?", "b!", "-", "+", "->", "..", "?a", "!!"];
fn gen<S: Src>(s: &mut S, d: u64, loc: llrl::source_loc::SourceLocation) -> Sexp {
    let k = s.below(if d == 0 { 7 } else { 22 });
    let rep = match k {
        0 => SexpRep::Integer(false, s.u64()),
        1 => { let v = s.u64() | 1 << 63; SexpRep::Integer(true, v) }
        2 => SexpRep::FPNumber(match s.below(4) { 0 => s.u64() as f64, 1 => f64::from_bits(s.u64()), 2 => s.u64() as i64 as f64 / 1000.0, _ => [0.0, -0.0, 1.0, 1e16, 1e-7, f64::INFINITY, f64::NEG_INFINITY, f64::MAX][s.below(8) as usize] }.into()),
        3 => SexpRep::symbol(SYMS[s.below(SYMS.len() as u64) as usize]),
        4 => SexpRep::string(text(s, 4)),
        5 => SexpRep::Char(if s.bool() { s.char() } else { ['\n', '\\', '"', ' ', '\t', '\r', '(', 'n', '\''][s.below(9) as usize] }),
        6 => SexpRep::Bool(s.bool()),
        7..=9 => { let m = s.below(4); SexpRep::List((0..m).map(|_| gen(s, d - 1, loc)).collect()) }
        10 => { let m = s.below(3); let h = gen(s, d - 1, loc); let i = (0..m).map(|_| gen(s, d - 1, loc)).collect(); let l = gen(s, d - 1, loc); return Sexp::list_like(loc, h, i, l) }
        11 => { let a = gen(s, d - 1, loc); let b = gen(s, d - 1, loc); return Sexp::cons(loc, a, b) }
        12 => return Sexp::annotate(loc, gen(s, d - 1, loc), { let m = s.below(3); (0..m).map(|_| gen(s, d - 1, loc)).collect() }),
        _ => {
            let x = gen(s, d - 1, loc);
            return match k { 13 => Sexp::quote(loc, x), 14 => Sexp::quasiquote(loc, x), 15 => Sexp::unquote(loc, x), 16 => Sexp::unquote_splicing(loc, x), 17 => Sexp::load(loc, x), 18 => Sexp::capture(loc, x), 19 => Sexp::try_question(loc, x), 20 => Sexp::try_exclamation(loc, x), _ => Sexp::list(loc, vec![x]) };
        }
    };
    Sexp::new(loc, rep)
}
fn eq(a: &Sexp, b: &Sexp) -> bool {
    let all = |x: &[Sexp], y: &[Sexp]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| eq(x, y));
    match (&a.rep, &b.rep) {
        // (a whole number is printed without a point)
        (SexpRep::Integer(s, v), SexpRep::FPNumber(w)) => if *s { *v as i64 as f64 == w.into_inner() } else { *v as f64 == w.into_inner() },
        (SexpRep::FPNumber(v), SexpRep::FPNumber(w)) => v.to_bits() == w.to_bits() || v.is_nan() && w.is_nan(),
        (SexpRep::List(l), SexpRep::List(m)) => all(l, m),
        (SexpRep::ListLike(l), SexpRep::ListLike(m)) => eq(&l.0, &m.0) && all(&l.1, &m.1) && eq(&l.2, &m.2),
        (x, y) => x == y,
    }
}
// What is printed reads back as the same expression.
kit::obligation!(printed, native, |s| {
    let loc = SourceLocator::temporary().issue(Default::default());
    let x = gen(s, 3, loc);
    note(|| format!("{:?} printed as {}", tree(&x), x));
    let r = parse::<Ss, _>(&mut SourceLocator::temporary(), Lexer::new(&x.to_string())).aggregate_errors();
    let r = match r { Ok(r) => r, Err(e) => fail(&format!("a printed expression is read: {}", e)) };
    chk!(r.ss.len() == 1, "a printed expression reads as one expression");
    chk!(eq(&r.ss[0], &x), "a printed expression reads back as itself");
    reach!("printed");
});
fn tree(x: &Sexp) -> String {
    let all = |l: &[Sexp]| l.iter().map(tree).collect::<Vec<_>>().join(" ");
    match &x.rep { SexpRep::List(l) => format!("<{}>", all(l)), SexpRep::ListLike(l) => format!("<{} {} . {}>", tree(&l.0), all(&l.1), tree(&l.2)), r => format!("{:?}", r) }
}
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C12", c12::reads, 3, native, "texts of at most 30 pieces"),
        kit::entry!("C12", c12::one, 1, native, "texts of at most 12 pieces"),
        kit::entry!("C12", c12::printed, 2, native, "expressions of depth at most 3"),
    ]
}
