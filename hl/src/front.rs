//! Building a module from its text.
#![cfg(not(kani))]
use llrl::ast;
use llrl::module::{self, Error, Module};
use llrl::path::{PackageName, Path};
use llrl::preprocess::Preprocessor;
use llrl::report::Report;
use llrl::source::{collect, Loader};
use llrl::source_loc::{LocationRange, SourceLocation, SourceLocationTable};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub struct NoMacro;
impl module::Backend for NoMacro {
    fn add_module(&self, _: Arc<Module>, _: bool) {}
    fn execute_macro(&self, _: ast::NodeId<ast::Macro>, _: &ast::builtin::Syntax<ast::builtin::Sexp>) -> Result<ast::builtin::Syntax<ast::builtin::Sexp>, String> { Err("none".into()) }
}
pub struct Built {
    pub table: SourceLocationTable,
    pub modules: HashMap<ast::ModuleId, Arc<Module>>,
    pub result: Result<Arc<Module>, Box<Error>>,
}
impl Built {
    pub fn line(&self, loc: SourceLocation) -> (usize, usize) {
        let r = self.table.review(loc).1;
        (r.start.line as usize, r.end.line as usize)
    }
}
/// Builds the module of this text, which imports only the built-in module.
pub fn build(text: &str) -> Built {
    let mut loader = Loader::new();
    loader.add_package(PackageName::builtin(), ast::builtin::module());
    let entry: Path = "~/m".parse().unwrap();
    loader.add_source(entry.clone(), format!("(no-implicit-std) (import \"builtin\" _)\n{}", text));
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let set = collect([&entry], &loader, &mut table, &Preprocessor::new(), &mut report);
    if let Some((p, es)) = set.errors().next() { kit::fail(&format!("the text of {} is read: {:?}", p, es)) }
    let order = match set.resolve_dependencies_order() { Ok(s) => s, Err(_) => kit::fail("one module is not circular") };
    let (built, errors) = module::parallel_build(order, HashSet::from([entry.clone()]), &NoMacro, &mut report);
    let mut result = None;
    let mut modules = HashMap::new();
    for m in built { if *m.path() == entry { result = Some(Ok(m.clone())) } modules.insert(m.id(), m); }
    for (src, e) in errors { if src.path == entry { result = Some(Err(Box::new(e))) } else { kit::fail(&format!("the built-in module is built: {:?}", e)) } }
    match result { Some(result) => Built { table, modules, result }, None => kit::fail("a module is built or refused") }
}
/// Splits a printed expression: nested lists of atoms.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T { A(String), L(Vec<T>) }
pub fn tree(t: &str) -> Option<T> {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut stack) = (0, vec![vec![]]);
    while i < c.len() {
        match c[i] {
            ' ' | '\n' => i += 1,
            '(' => { stack.push(vec![]); i += 1 }
            ')' => { let l = T::L(stack.pop()?); stack.last_mut()?.push(l); i += 1 }
            '"' => { let s = i; i += 1; while *c.get(i)? != '"' { if c[i] == '\\' { i += 1 } i += 1 } i += 1; stack.last_mut()?.push(T::A(c[s..i].iter().collect())) }
            _ => { let s = i; while i < c.len() && !" ()\n".contains(c[i]) { if c[i] == '\\' { i += 1 } i += 1 } let e = i.min(c.len()); stack.last_mut()?.push(T::A(c[s..e].iter().collect())) }
        }
    }
    if stack.len() == 1 && stack[0].len() == 1 { stack.pop()?.pop() } else { None }
}
