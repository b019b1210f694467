//! What a name inside a function stands for.
use crate::{sx, World};
use either::*;
use llrl::ast::{self, Construct, Expr, ExprRep, Pattern, PatternRep, Use, Value};
use llrl::module::Error;

/// Terms whose names are numbers: values are x y, functions are g h.
enum T { Use(usize), App(usize, Box<T>), Let(Vec<D>, Box<T>), Match(Box<T>, Vec<usize>, Box<T>) }
struct D { name: usize, param: Option<usize>, body: T }
const V: [&str; 2] = ["x", "y"];
const F: [&str; 2] = ["g", "h"];

fn def(n: u64, locals: bool) -> D {
    let fun = locals && sx::pick(2) == 1;
    D { name: sx::pick(2), param: if fun { Some(sx::pick(2)) } else { None }, body: term(n, locals) }
}
/// any term of at most n inner nodes
fn term(n: u64, locals: bool) -> T {
    if n == 0 { return T::Use(sx::pick(2)); }
    match sx::pick(if n == 1 { 4 } else { 5 }) {
        0 => T::Use(sx::pick(2)),
        1 => T::App(sx::pick(2), Box::new(term(n - 1, locals))),
        2 => { let l = sx::pick(n as usize) as u64; let d = def(l, locals); T::Let(vec![d], Box::new(term(n - 1 - l, locals))) }
        3 => {
            let l = sx::pick(n as usize) as u64;
            let t = term(l, locals);
            let p = if sx::pick(2) == 0 { vec![sx::pick(2)] } else { vec![sx::pick(2), sx::pick(2)] };
            T::Match(Box::new(t), p, Box::new(term(n - 1 - l, locals)))
        }
        _ => { let l = sx::pick(n as usize - 1) as u64; let d = vec![def(0, locals), def(l, locals)]; T::Let(d, Box::new(term(n - 2 - l, locals))) }
    }
}
fn text(t: &T, s: &mut String) {
    match t {
        T::Use(x) => s.push_str(V[*x]),
        T::App(f, a) => { s.push('('); s.push_str(F[*f]); s.push(' '); text(a, s); s.push(')'); }
        T::Let(ds, b) => {
            s.push_str("(let (");
            for d in ds {
                match d.param {
                    None => { s.push('['); s.push_str(V[d.name]); }
                    Some(p) => { s.push_str("[("); s.push_str(F[d.name]); s.push(' '); s.push_str(V[p]); s.push(')'); }
                }
                s.push(' ');
                text(&d.body, s);
                s.push(']');
            }
            s.push_str(") ");
            text(b, s);
            s.push(')');
        }
        T::Match(e, p, b) => {
            s.push_str("(match ");
            text(e, s);
            s.push_str(if p.len() == 1 { " [(let " } else { " [(let " });
            s.push_str(V[p[0]]);
            if p.len() == 2 { s.push_str(" (let "); s.push_str(V[p[1]]); s.push(')'); }
            s.push_str(") ");
            text(b, s);
            s.push_str("])");
        }
    }
}
/// The binding each name stands for: lists of (is a function, name, binding), innermost last.
#[derive(Clone, Copy, PartialEq)]
struct B { fun: bool, name: usize, id: usize }
fn look(env: &[B], fun: bool, name: usize) -> Option<usize> { env.iter().rev().find(|b| b.fun == fun && b.name == name).map(|b| b.id) }
#[derive(PartialEq, Clone, Copy)]
enum Bad { Unresolved, Duplicate }
/// numbers the bindings in the order the term is written in; the first thing wrong with it, in any order
fn model(t: &T, env: &mut Vec<B>, next: &mut usize, bad: &mut Vec<Bad>) {
    let n = env.len();
    match t {
        T::Use(x) => if look(env, false, *x).is_none() { bad.push(Bad::Unresolved) },
        T::App(f, a) => { if look(env, true, *f).is_none() { bad.push(Bad::Unresolved) } model(a, env, next, bad); }
        T::Let(ds, b) => {
            let ids: Vec<usize> = ds.iter().map(|_| { *next += 1; *next - 1 }).collect();
            let same = |x: &D, y: &D| x.param.is_some() == y.param.is_some() && x.name == y.name;
            if ds.len() == 2 && same(&ds[0], &ds[1]) { bad.push(Bad::Duplicate); }
            for (d, id) in ds.iter().zip(&ids) { if d.param.is_some() { env.push(B { fun: true, name: d.name, id: *id }); } }
            for d in ds {
                let k = env.len();
                if let Some(p) = d.param { env.push(B { fun: false, name: p, id: *next }); *next += 1; }
                model(&d.body, env, next, bad);
                env.truncate(k);
            }
            for (d, id) in ds.iter().zip(&ids) { if d.param.is_none() { env.push(B { fun: false, name: d.name, id: *id }); } }
            model(b, env, next, bad);
        }
        T::Match(e, p, b) => {
            model(e, env, next, bad);
            if p.len() == 2 && p[0] == p[1] { bad.push(Bad::Duplicate); }
            for x in p { env.push(B { fun: false, name: *x, id: *next }); *next += 1; }
            model(b, env, next, bad);
        }
    }
    env.truncate(n);
}
/// walks the term and what was made of it together
struct Walk { ids: Vec<Option<Construct>>, next: usize }
impl Walk {
    fn bind(&mut self, id: usize, c: impl Into<Construct>) { while self.ids.len() <= id { self.ids.push(None); } self.ids[id] = Some(c.into()); }
    fn same(&self, want: usize, got: &Expr) {
        let c = match &got.rep {
            ExprRep::Use(Use::Resolved(v, _)) => match *v {
                Value::Function(i) => Some(Construct::Function(i)), Value::Parameter(i) => Some(Construct::Parameter(i)),
                Value::LocalVar(i) => Some(Construct::LocalVar(i)), Value::LocalFun(i) => Some(Construct::LocalFun(i)),
                Value::PatternVar(i) => Some(Construct::PatternVar(i)), _ => None,
            },
            _ => None,
        };
        sx::check(c.is_some() && c == self.ids[want], c"a name stands for its innermost binding in scope");
    }
    fn go(&mut self, t: &T, env: &mut Vec<B>, e: &Expr) {
        let n = env.len();
        match (t, &e.rep) {
            (T::Use(x), _) => self.same(look(env, false, *x).unwrap(), e),
            (T::App(f, a), ExprRep::App(app)) => { self.same(look(env, true, *f).unwrap(), &app.callee); self.go(a, env, &app.args[0]); }
            (T::Let(ds, b), ExprRep::Let(l)) => {
                let ids: Vec<usize> = ds.iter().map(|_| { self.next += 1; self.next - 1 }).collect();
                for ((d, id), x) in ds.iter().zip(&ids).zip(&l.defs) {
                    match x { Left(v) => self.bind(*id, v.id), Right(f) => self.bind(*id, f.id) }
                    if d.param.is_some() { env.push(B { fun: true, name: d.name, id: *id }); }
                }
                for (d, x) in ds.iter().zip(&l.defs) {
                    let k = env.len();
                    match (d.param, x) {
                        (Some(p), Right(f)) => {
                            let id = self.next; self.next += 1;
                            self.bind(id, f.params[0].id);
                            env.push(B { fun: false, name: p, id });
                            self.go(&d.body, env, &f.body);
                        }
                        (None, Left(v)) => self.go(&d.body, env, &v.init),
                        _ => sx::check(false, c"a local definition stays what it is"),
                    }
                    env.truncate(k);
                }
                for (d, id) in ds.iter().zip(&ids) { if d.param.is_none() { env.push(B { fun: false, name: d.name, id: *id }); } }
                self.go(b, env, &l.body);
            }
            (T::Match(x, p, b), ExprRep::Match(m)) => {
                self.go(x, env, &m.target);
                let (pat, body) = &m.clauses[0];
                let mut pat: Option<&Pattern> = Some(pat);
                for x in p {
                    let id = self.next; self.next += 1;
                    match pat.map(|p| &p.rep) {
                        Some(PatternRep::Var(v)) => { self.bind(id, v.id); pat = v.as_pat.as_ref(); }
                        _ => sx::check(false, c"a pattern stays what it is"),
                    }
                    env.push(B { fun: false, name: *x, id });
                }
                self.go(b, env, body);
            }
            _ => sx::check(false, c"the term keeps its form"),
        }
        env.truncate(n);
    }
}
/// (function (f params) body) beside (function (g y) y), for every term of at most n inner nodes
#[no_mangle]
pub extern "C" fn h_scope(n: u64, locals: u64, params: u64) {
    let w = Box::leak(Box::new(World::new()));
    w.add_builtin();
    let t = term(n, locals != 0);
    let ps: &[usize] = [&[0][..], &[1, 0], &[0, 0]][if params < 3 { params as usize } else { sx::pick(3) }];
    let mut s = String::from("(no-implicit-std)(data T t:)(function (g y) {(-> T T)} y)(function (f");
    for p in ps { s.push(' '); s.push_str(V[*p]); }
    s.push_str(if ps.len() == 1 { ") {(-> T T)} " } else { ") {(-> T T T)} " });
    text(&t, &mut s);
    s.push(')');
    let mut env = vec![B { fun: true, name: 0, id: 0 }];
    let mut bad = vec![];
    let mut next = 1;
    if ps.len() == 2 && ps[0] == ps[1] { bad.push(Bad::Duplicate); }
    for p in ps { env.push(B { fun: false, name: *p, id: next }); next += 1; }
    model(&t, &mut env.clone(), &mut next, &mut bad);
    match w.add("~/a", &s) {
        Ok(()) => {
            sx::check(bad.is_empty(), c"an unresolved or duplicated name is refused");
            sx::reach(1);
            let root = w.modules[1].ast_root();
            let sym = w.modules[1].symbol_map();
            let by = |name: &str| root.functions.values().find(|f| sym.get(f.id).unwrap().name == name).unwrap();
            let (g, f) = (by("g"), by("f"));
            let mut walk = Walk { ids: vec![], next: 1 + ps.len() };
            walk.bind(0, g.id);
            for (i, p) in f.params.as_ref().unwrap().iter().enumerate() { walk.bind(1 + i, p.id); }
            walk.go(&t, &mut env, &f.body);
        }
        Err(e) => match e.drop_context_info() {
            Error::Unresolved(..) => { sx::reach(2); sx::check(bad.contains(&Bad::Unresolved), c"only a name that is bound nowhere is unresolved") }
            Error::DuplicatedIdentifier(..) => { sx::reach(3); sx::check(bad.contains(&Bad::Duplicate), c"only a name bound twice in one place is duplicated") }
            _ => sx::check(false, c"nothing else is wrong with these terms"),
        },
    }
}
/// type parameters: of a function, and of a local function inside it
#[no_mangle]
pub extern "C" fn h_tyscope(_: u64) {
    let w = Box::leak(Box::new(World::new()));
    w.add_builtin();
    let names = ["A", "B", "T"];
    let lists: [&[usize]; 5] = [&[], &[0], &[1], &[0, 1], &[0, 0]];
    let (l1, l2) = (lists[sx::pick(5)], lists[sx::pick(5)]);
    let (p1, p2, p3) = (sx::pick(3), sx::pick(3), sx::pick(3));
    let forall = |s: &mut String, l: &[usize]| if !l.is_empty() { s.push_str("(forall"); for x in l { s.push(' '); s.push_str(names[*x]); } s.push_str(") "); };
    let mut s = String::from("(no-implicit-std)(data T t:)(function (f x) {");
    forall(&mut s, l1);
    s.push_str("(-> "); s.push_str(names[p1]); s.push_str(" T)} (let ([(g y) {");
    forall(&mut s, l2);
    s.push_str("(-> "); s.push_str(names[p2]); s.push_str(" T)} t:]) (let ([z {"); s.push_str(names[p3]);
    // an annotation after the local function sees the outer parameters only
    s.push_str("} x]) t:)))");
    let inl = |l: &[usize], x: usize| x == 2 || l.contains(&x);
    let unresolved = !inl(l1, p1) || !(inl(l1, p2) || inl(l2, p2)) || !inl(l1, p3);
    let dup = l1 == [0, 0] || l2 == [0, 0];
    match w.add("~/a", &s).map_err(|e| e.drop_context_info()) {
        Err(Error::Unresolved(..)) => { sx::reach(1); sx::check(unresolved, c"only a type that is bound nowhere is unresolved") }
        Err(Error::DuplicatedIdentifier(..)) => { sx::reach(2); sx::check(dup, c"only a type parameter given twice is duplicated") }
        r => {
            sx::reach(3);
            sx::check(!unresolved && !dup, c"an unresolved or duplicated type name is refused");
            // x has the type its parameter was given
            sx::check(r.is_ok() == (p1 == p3), c"the annotations mean the types they name");
        }
    }
    let _ = ast::ModuleId::builtin();
}
