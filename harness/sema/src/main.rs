mod sx;
use llrl::ast;
use llrl::module::{Error, External, Module, ModuleId, ModuleSet};
use llrl::path::Path;
use llrl::source::Source;
use llrl::source_loc::{SourceLocation, SourceLocationTable};
use std::collections::HashMap;

pub struct World { table: SourceLocationTable, modules: Vec<Module>, paths: Vec<Path> }
impl External for World {
    fn module(&self, mid: ModuleId) -> &Module { &self.modules[mid.as_index()] }
    fn find_module(&self, path: &Path) -> Option<&Module> { self.paths.iter().position(|p| p == path).map(|i| &self.modules[i]) }
    fn execute_macro(&self, _: ast::NodeId<ast::Macro>, _: &ast::builtin::Syntax<ast::builtin::Sexp>) -> Result<ast::builtin::Syntax<ast::builtin::Sexp>, String> { Err(String::new()) }
}
impl World {
    pub fn new() -> Self { World { table: SourceLocationTable::new(), modules: vec![], paths: vec![] } }
    /// the module of a text, built after the ones before it
    pub fn add(&mut self, path: &str, text: &str) -> Result<(), Error> {
        let path: Path = path.parse().unwrap();
        let mut loc = self.table.begin_locate(&path);
        let mut s = Source::from_code_text(path.clone(), &mut loc, text);
        self.table.complete_locate(loc);
        sx::check(s.errors.is_empty(), c"the text can be read");
        s.resolve_dependencies();
        s.dependencies.retain(|_, p| self.paths.contains(p));
        let m = Module::build(ModuleId::from_index(self.modules.len()), &s, self)?;
        self.paths.push(path);
        self.modules.push(m);
        Ok(())
    }
}
impl World {
    pub fn add_builtin(&mut self) { let r = self.add("builtin", ast::builtin::SOURCE_CODE); sx::check(r.is_ok(), c"the built-in module is accepted"); }
    /// where a construct was first defined: its module and its name there
    fn origin(&self, c: ast::Construct) -> (usize, String) {
        for (i, m) in self.modules.iter().enumerate() {
            if c.module() == m.id() { if let Some(s) = m.symbol_map().get(c) { return (i, s.name.clone()); } }
        }
        (usize::MAX, String::new())
    }
}
mod ports;
mod scopes;
mod types;
mod classes;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i + 2).map(|x| x.parse().unwrap()).unwrap_or(0u64);
    match a[1].as_str() {
        "h_ports" => ports::h_ports(g(0), g(1), g(2)),
        "h_scope" => scopes::h_scope(g(0), g(1), g(2)),
        "h_tyscope" => scopes::h_tyscope(g(0)),
        "h_infer" => types::h_infer(g(0), g(1), g(2)),
        "h_infer2" => types::h_infer2(g(0), g(1), g(2)),
        "h_classes" => classes::h_classes(g(0), g(1), g(2)),
        x => { eprintln!("unknown entry {}", x); std::process::exit(97); }
    }
}
