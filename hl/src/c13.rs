//! C13: modules: paths, imports, exports, dependencies.
#![cfg(not(kani))]
use kit::*;
use llrl::ast;
use llrl::module::{self, Module, ModuleId};
use llrl::path::{ModuleName, PackageName, Path};
use llrl::preprocess::Preprocessor;
use llrl::report::Report;
use llrl::source::{collect, Error as SourceError, Loader, Source};
use llrl::source_loc::SourceLocationTable;
use llrl::topological_sort;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- paths
/// Package (None: the current one) and parts of a module path.
fn path_of(t: &str) -> Option<(Option<String>, Vec<String>)> {
    let mut parts: Vec<&str> = t.split('/').collect();
    let head = parts.remove(0);
    let bad = |p: &str| p.is_empty() || p == "~" || p == "." || p == "..";
    if head != "~" && bad(head) || parts.iter().any(|p| bad(p)) { return None }
    if parts == ["prelude"] { parts.clear() }
    Some(((head != "~").then(|| head.to_string()), parts.iter().map(|s| s.to_string()).collect()))
}
fn path_text<S: Src>(s: &mut S) -> String {
    const P: &[&str] = &["~", ".", "..", "prelude", "a", "std", "builtin", "", "a.b", "~a", "...", "é", "x-y", "prelude2", " "];
    let n = 1 + s.below(4);
    let mut t = String::new();
    for i in 0..n { if i > 0 { t.push('/') } t.push_str(P[s.below(P.len() as u64) as usize]); if s.below(12) == 0 { t.push(s.char()) } }
    t
}
kit::obligation!(paths, native, |s| {
    let t = path_text(s);
    note(|| format!("{:?}", t));
    match (t.parse::<Path>(), path_of(&t)) {
        (Ok(p), Some((pk, parts))) => {
            chk!(p.package.external_name() == pk.as_ref() && p.package.is_current() == pk.is_none() && p.package.is_external() == pk.is_some(), "the package of a path");
            chk!(*p.module.raw_parts() == parts && p.module.is_prelude() == parts.is_empty(), "the parts of a path");
            let back = p.to_string();
            chk!(back.parse::<Path>() == Ok(p.clone()), "a printed path reads back as itself");
            let canon = match (&pk, parts.as_slice()) { (pk, []) => pk.clone().unwrap_or("~".into()), (pk, ps) => format!("{}/{}", pk.clone().unwrap_or("~".into()), ps.join("/")) };
            chk!(back == canon, "a path prints in its shortest form");
            reach!("path");
        }
        (Err(_), None) => reach!("no path"),
        (Ok(_), None) => fail("a path with an empty, . , .. or ~ part is refused"),
        (Err(_), Some(_)) => fail("a well-formed path is accepted"),
    }
});
// ---------------------------------------------------------------- files
static SCRATCH: Mutex<u32> = Mutex::new(0);
kit::obligation!(files, native, |s| {
    // which file of a package a module path names
    const F: &[&str] = &["a", "b", "a.b", "prelude", "c.llrl", "d"];
    let dir = { let mut n = SCRATCH.lock().unwrap(); *n += 1; std::env::temp_dir().join(format!("c13-{}-{}", std::process::id(), *n % 4)) };
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let mut have = BTreeSet::new();
    for f in F { for d in ["", "sub/"] { if s.bool() {
        std::fs::write(dir.join(format!("{}{}.llrl", d, f)), format!("\"{}{}\"", d, f)).unwrap();
        have.insert(format!("{}{}", d, f));
    } } }
    let t = match s.below(4) { 0 => "~".to_string(), 1 => format!("~/sub/{}", F[s.below(6) as usize]), _ => format!("~/{}", F[s.below(6) as usize]) };
    note(|| format!("{} among {:?}", t, have));
    let mut loader = Loader::new();
    loader.add_package(PackageName::current(), dir.clone());
    let path: Path = t.parse().unwrap();
    let want = match t.as_str() { "~" => "prelude".to_string(), t => t[2..].to_string() };
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&path);
    let r = loader.load(path.clone(), &mut locator);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(src) => {
            chk!(src.path == path && src.errors.is_empty(), "a loaded module has the path it was asked for by");
            let code = match src.rep { llrl::source::SourceRep::Code(c) => c.to_string(), _ => fail("a loaded module has code") };
            chk!(have.contains(&want) && code == format!("\"{}\"", want), "a module is loaded from the file its path names");
            reach!("loaded");
        }
        Err(e) => { chk!(!have.contains(&want) && e.error == SourceError::ModuleNotFound && e.path == path, "a module is missing only if its file is"); reach!("missing") }
    }
});
// ---------------------------------------------------------------- sorting
struct Deps(Vec<usize>);
impl topological_sort::DependencyList<usize> for Deps { fn traverse_dependencies(&self, f: &mut impl FnMut(&usize)) { self.0.iter().for_each(f) } }
#[derive(Clone)]
struct Node(usize, Vec<usize>);
impl topological_sort::DependencyList<usize> for Node { fn traverse_dependencies(&self, f: &mut impl FnMut(&usize)) { self.1.iter().for_each(f) } }
kit::obligation!(sorted, native, |s| {
    let n = s.below(11) as usize;
    // sparse and dense graphs; some dependencies do not exist
    let dense = 1 + s.below(4);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { order.swap(i, s.below(i as u64 + 1) as usize) }
    let g: Vec<Vec<usize>> = (0..n).map(|_| (0..s.below(dense)).map(|_| s.below(n as u64 + 1) as usize).collect()).collect();
    note(|| format!("{:?} given in order {:?}", g, order));
    let r = topological_sort::run(order.iter().map(|&i| (i, Node(i, g[i].clone()))));
    let mut at = vec![usize::MAX; n];
    for (k, grp) in r.iter().enumerate() {
        chk!(!grp.is_empty(), "no group is empty");
        for v in grp { chk!(at[v.0] == usize::MAX, "every value is sorted once"); at[v.0] = k }
    }
    chk!(at.iter().all(|a| *a != usize::MAX), "every value is sorted");
    let mut path = vec![vec![false; n]; n];
    for i in 0..n { path[i][i] = true; for &j in &g[i] { if j < n { path[i][j] = true } } }
    for k in 0..n { for i in 0..n { for j in 0..n { if path[i][k] && path[k][j] { path[i][j] = true } } } }
    for i in 0..n { for j in 0..n {
        chk!((at[i] == at[j]) == (path[i][j] && path[j][i]), "values share a group exactly when they depend on each other");
        if path[i][j] { chk!(at[j] <= at[i], "dependencies come first") }
    } }
    reach!("sorted");
});
// ---------------------------------------------------------------- whole sets of modules
/// One module: what it imports, defines and exports.
#[derive(Clone, Debug, Default)]
pub struct M { pub pkg: usize, pub name: String, pub imports: Vec<(String, Vec<(Option<String>, String)>)>, pub defs: Vec<String>, pub exports: Vec<(Option<String>, String)>, pub std: bool, pub broken: bool }
const PKG: [&str; 3] = ["~", "p", "std"];
impl M {
    fn text(&self) -> String {
        let port = |(n, t): &(Option<String>, String)| match n { Some(n) => format!("({} {})", n, t), None => t.clone() };
        let mut x = String::from(if self.std { "" } else { "(no-implicit-std)\n" });
        for (p, ts) in &self.imports { x += &format!("(import \"{}\" {})\n", p, ts.iter().map(port).collect::<Vec<_>>().join(" ")); }
        for d in &self.defs { x += &format!("(class ({} A))\n", d); }
        if self.broken { x += "(class (x A\n" }
        if !self.exports.is_empty() { x += &format!("(export {})\n", self.exports.iter().map(port).collect::<Vec<_>>().join(" ")); }
        x
    }
    fn path(&self) -> String { if self.name == "prelude" { PKG[self.pkg].to_string() } else { format!("{}/{}", PKG[self.pkg], self.name) } }
}
/// A name or a wildcard (prefix, suffix).
fn wild(t: &str) -> Option<(&str, &str)> {
    if t == "_" { Some(("", "")) } else if let Some(x) = t.strip_prefix('_') { Some(("", x)) } else { t.strip_suffix('_').map(|x| (x, "")) }
}
type Who = (usize, String); // module, defined name
/// The ports a list of targets selects from a table.
fn select(targets: &[(Option<String>, String)], from: &BTreeMap<String, Who>, into: &mut BTreeMap<String, Who>) -> bool {
    let mut put = |n: String, w: &Who| { let old = into.insert(n, w.clone()); old.is_none() || old.as_ref() == Some(w) };
    for (name, t) in targets {
        match wild(t) {
            Some((pre, suf)) => {
                let (a, b) = match name { None => (pre, suf), Some(n) => match wild(n) { Some(x) => x, None => return false } };
                for (n, w) in from {
                    if n.len() > pre.len() + suf.len() || pre.is_empty() && suf.is_empty() {
                        if let Some(m) = n.strip_prefix(pre).and_then(|n| n.strip_suffix(suf)) { if !put(format!("{}{}{}", a, m, b), w) { return false } }
                    }
                }
            }
            None => match from.get(t) { Some(w) => if !put(name.clone().unwrap_or(t.clone()), w) { return false }, None => return false },
        }
    }
    true
}
fn name<S: Src>(s: &mut S) -> String { ["a", "b", "ab", "ba", "aa", "x-a", "x-b", "a-x", "x", "xx-a", "a_", "_b", "_"][{ let limit = if s.below(12) == 0 { 13 } else { 10 }; s.below(limit) as usize }].to_string() }
fn target<S: Src>(s: &mut S) -> (Option<String>, String) {
    const W: &[&str] = &["_", "x_", "_x", "x-_", "_-x", "a_", "_a", "p_", "_b", "__", "_a_"];
    let w = |s: &mut S| W[s.below(W.len() as u64) as usize].to_string();
    let t = if s.below(2) == 0 { w(s) } else { name(s) };
    let n = match s.below(8) { 0..=3 => None, 4 => Some(name(s)), _ => if wild(&t).is_some() { Some(w(s)) } else { Some(name(s)) } };
    (n, t)
}
/// The module an import names, from inside a package.
fn names(from: usize, t: &str) -> Option<(Option<String>, Vec<String>)> {
    let (pk, parts) = path_of(t)?;
    Some((match pk { None => (PKG[from] != "~").then(|| PKG[from].to_string()), pk => pk }, parts))
}
#[derive(Default)]
struct Log(Mutex<Vec<(usize, bool)>>);
impl module::Backend for Log {
    fn add_module(&self, m: Arc<Module>, entry: bool) { self.0.lock().unwrap().push((m.id().as_index(), entry)) }
    fn execute_macro(&self, _: ast::NodeId<ast::Macro>, _: &ast::builtin::Syntax<ast::builtin::Sexp>) -> Result<ast::builtin::Syntax<ast::builtin::Sexp>, String> { Err("none".into()) }
}
fn world<S: Src>(s: &mut S, wrong: bool) -> Vec<M> {
    let n = 2 + s.below(5) as usize;
    let mut ms: Vec<M> = vec![];
    // a small standard library, which the other modules may import without saying so
    let std = s.below(3) == 0;
    for i in 0..n {
        let pkg = if std && i == 0 { 2 } else { s.below(2) as usize };
        let mut m = M { pkg, name: match s.below(6) { _ if pkg == 2 => "prelude".into(), 0 => "prelude".into(), 1 => format!("d/m{}", i), _ => format!("m{}", i) }, ..Default::default() };
        m.std = std && i > 0 && s.bool();
        m.broken = wrong && s.below(16) == 0;
        if ms.iter().any(|x| x.path() == m.path()) { m.name = format!("m{}", i) }
        for _ in 0..s.below(3) {
            let t = if i > 0 && !(wrong && s.below(10) == 0) {
                let t = &ms[s.below(i as u64) as usize];
                // the different ways to name the same module
                let tail = if t.name == "prelude" { if s.bool() { "" } else { "/prelude" } } else { "/" };
                let tail = if tail == "/" { format!("/{}", t.name) } else { tail.to_string() };
                if t.pkg == 0 && pkg != 0 { continue } // cannot be named from there
                let head = if t.pkg == pkg && s.bool() { "~" } else { PKG[t.pkg] };
                format!("{}{}", head, tail)
            } else if wrong { match s.below(6) { 0 => "~/none".into(), 1 => "q/none".into(), 2 => "~/../x".into(), 3 => m.path(), k => format!("~/m{}", if k == 4 { (i + 1) % n } else { i }) } } else { continue };
            let ts = (0..s.below(3)).map(|_| target(s)).collect();
            m.imports.push((t, ts));
        }
        for _ in 0..s.below(4) { let d = name(s); if wrong && s.below(4) == 0 || !m.defs.contains(&d) { m.defs.push(d) } }
        for _ in 0..s.below(3) { m.exports.push(target(s)) }
        // more often than not, ports that exist
        if s.bool() { m.exports = vec![(None, "_".into())] }
        ms.push(m);
    }
    ms
}
fn run(ms: &[M]) {
    let mut loader = Loader::new();
    loader.add_package(PackageName::builtin(), ast::builtin::module());
    for m in ms { loader.add_source(m.path().parse().unwrap(), m.text()); }
    let entry: Path = ms.last().unwrap().path().parse().unwrap();
    let mut table = SourceLocationTable::new();
    let mut report = Report::new();
    let set = collect([&entry], &loader, &mut table, &Preprocessor::new(), &mut report);

    // which modules are needed, and what is wrong with them
    let key = |m: &M| path_of(&m.path()).unwrap();
    let index: BTreeMap<_, usize> = ms.iter().enumerate().map(|(i, m)| (key(m), i)).collect();
    let (mut need, mut todo, mut bad) = (BTreeSet::new(), vec![key(ms.last().unwrap())], BTreeSet::new());
    let mut deps: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    while let Some(k) = todo.pop() {
        if !need.insert(k.clone()) { continue }
        let i = match index.get(&k) { Some(i) => *i, None => { bad.insert(k); continue } };
        let d = deps.entry(i).or_default();
        if ms[i].broken { bad.insert(k.clone()); } // what can be read is still followed
        if ms[i].std { d.insert(0); todo.push(key(&ms[0])); }
        for (t, _) in &ms[i].imports {
            match names(ms[i].pkg, t) {
                None => { bad.insert(k.clone()); }
                Some(x) if x == k => { bad.insert(k.clone()); }
                Some(x) => { if let Some(j) = index.get(&x) { d.insert(*j); } todo.push(x) }
            }
        }
    }
    let pk = |p: &Path| (p.package.external_name().cloned(), p.module.raw_parts().clone());
    let got_bad: BTreeSet<_> = set.errors().map(|(p, _)| pk(p)).collect();
    chk!(got_bad == bad, "exactly the modules that cannot be loaded are reported");
    let loaded: BTreeSet<_> = set.sources().filter(|x| x.path != Path::builtin()).map(|x| pk(&x.path)).collect();
    // (nothing depends on the built-in module if no module could be read)
    chk!(loaded == need, "exactly the modules that are needed are loaded, each once");
    if !bad.is_empty() { reach!("not loadable"); return }

    // order, or a cycle
    let idx = |p: &Path| index[&pk(p)];
    let reach_ = |a: usize| { let (mut seen, mut todo) = (BTreeSet::new(), vec![a]); while let Some(x) = todo.pop() { for y in &deps[&x] { if seen.insert(*y) { todo.push(*y) } } } seen };
    let cyclic = deps.keys().any(|i| reach_(*i).contains(i));
    let sources = match set.resolve_dependencies_order() {
        Err(c) => {
            chk!(cyclic, "modules are called circular only if they import each other");
            let c: BTreeSet<usize> = c.iter().map(idx).collect();
            chk!(c.len() > 1 && c.iter().all(|a| { let r = reach_(*a); c.iter().all(|b| r.contains(b)) && r.iter().all(|b| c.contains(b) || !reach_(*b).contains(a)) }), "the modules that import each other are reported");
            reach!("circular");
            return;
        }
        Ok(s) => s,
    };
    chk!(!cyclic, "modules that import each other are refused");
    let order: Vec<Option<usize>> = sources.iter().map(|x| if x.path == Path::builtin() { None } else { Some(idx(&x.path)) }).collect();
    chk!(order.len() == need.len() + 1 && order[0].is_none(), "every module is ordered once, after the built-in one");
    for (k, i) in order.iter().enumerate() { if let Some(i) = i { for d in &deps[i] { chk!(order[..k].contains(&Some(*d)), "a module comes after those it imports"); } } }

    // what each module exports, or that it is in error
    let mut exports: BTreeMap<usize, Option<BTreeMap<String, Who>>> = BTreeMap::new();
    for i in order.iter().flatten() {
        let m = &ms[*i];
        let mut top = BTreeMap::new();
        let mut ok = deps[i].iter().all(|d| exports[d].is_some());
        for (t, ts) in &m.imports {
            if !ok { break }
            let j = index[&names(m.pkg, t).unwrap()];
            ok = select(ts, exports[&j].as_ref().unwrap(), &mut top);
        }
        if ok && m.std { for (n, w) in exports[&0].as_ref().unwrap() { top.entry(n.clone()).or_insert(w.clone()); } reach!("implicit std") }
        let mut own = BTreeSet::new();
        for d in &m.defs { ok = ok && own.insert(d.clone()) && top.insert(d.clone(), (*i, d.clone())).is_none() }
        let mut ex = BTreeMap::new();
        ok = ok && select(&m.exports, &top, &mut ex);
        exports.insert(*i, ok.then_some(ex));
    }
    let log = Log::default();
    let (built, errors) = module::parallel_build(sources, HashSet::from([entry.clone()]), &log, &mut report);
    let by_id: HashMap<usize, &Arc<Module>> = built.iter().map(|m| (m.id().as_index(), m)).collect();
    for m in &built {
        if *m.path() == Path::builtin() { continue }
        let i = idx(m.path());
        let want = match &exports[&i] { Some(w) => w, None => fail("a module whose names conflict or do not exist is refused") };
        let mut got = BTreeMap::new();
        for (n, c) in m.exports().iter() {
            let home = c.construct.module().as_index();
            let home_m = by_id[&home];
            let sym = match home_m.symbol_map().get(c.construct) { Some(s) => s.name.clone(), None => fail("an exported construct has a name") };
            got.insert(n.to_string(), (idx(home_m.path()), sym));
        }
        chk!(got == *want, "a module exports exactly the selected names, each for the construct it was selected for");
        for (n, w) in want { chk!(m.exports().get(n).is_some(), "an exported name is found"); let _ = w; }
        let imports: BTreeSet<usize> = m.imports().iter().map(|i| i.as_index()).filter(|i| *i != 0).map(|i| idx(by_id[&i].path())).collect();
        chk!(imports == deps[&i], "a module records what it imports");
        reach!("built");
    }
    for (src, e) in &errors {
        let i = idx(&src.path);
        chk!(exports[&i].is_none(), "a module whose names exist and do not conflict is built");
        let dep = deps[&i].iter().any(|d| exports[d].is_none());
        chk!(matches!(e, module::Error::DependentModuleBuildFailed) == dep, "a module is skipped exactly when one it imports failed");
        reach!("refused");
    }
    chk!(built.len() + errors.len() == order.len(), "every module is built or reported");
    // what the backend is given
    let log = log.0.into_inner().unwrap();
    let pos: HashMap<usize, usize> = log.iter().enumerate().map(|(k, (m, _))| (*m, k)).collect();
    chk!(pos.len() == log.len() && log.len() == built.len() && built.iter().all(|m| pos.contains_key(&m.id().as_index())), "every built module is handed over once");
    for m in &built {
        for d in m.imports() { chk!(pos[&d.as_index()] < pos[&m.id().as_index()], "a module is handed over after those it imports"); }
        chk!(log[pos[&m.id().as_index()]].1 == (*m.path() == entry), "the entry module is marked");
    }
}
kit::obligation!(ports, native, |s| {
    let ms = world(s, false);
    note(|| ms.iter().map(|m| format!("--- {}\n{}", m.path(), m.text())).collect());
    run(&ms);
});
kit::obligation!(faulty, native, |s| {
    let ms = world(s, true);
    note(|| ms.iter().map(|m| format!("--- {}\n{}", m.path(), m.text())).collect());
    run(&ms);
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C13", c13::paths, 1, native, "paths of at most 4 parts"),
        kit::entry!("C13", c13::files, 1, native, "packages of at most 12 files"),
        kit::entry!("C13", c13::sorted, 2, native, "graphs of at most 10 values"),
        kit::entry!("C13", c13::ports, 3, native, "at most 6 modules in 2 packages"),
        kit::entry!("C13", c13::faulty, 2, native, "at most 6 modules in 2 packages"),
    ]
}
