//! Which functions are accepted, and the types they are given, against the textbook rules (algorithm W).
use crate::{sx, World};
use either::*;
use llrl::ast::{self, Expr, ExprRep, Pattern, PatternRep, Type, TypeCon, Use, Value, ValueCon};
use llrl::module::Error;
use std::collections::BTreeMap;

/// Terms; variables are numbered, every binding by itself.
enum T {
    Var(usize),
    App(usize, Vec<T>),
    /// variable, annotation, value, rest
    LetV(usize, Option<usize>, Box<T>, Box<T>),
    /// function, parameter, annotation, body, rest
    LetF(usize, usize, usize, Box<T>, Box<T>),
    /// match t [(box: (let v)) u]
    Open(Box<T>, usize, Box<T>),
    /// match t [(p: (let v) (let w)) u]
    Split(Box<T>, usize, usize, Box<T>),
    /// match t [a: u]
    IsA(Box<T>, Box<T>),
    Ann(Box<T>, usize),
    Ret(Box<T>),
}
const A: usize = 0;
const B: usize = 1;
const BOX: usize = 2;
const P: usize = 3;
const ID: usize = 4;
const FIRST: usize = 5;
const FIXED: [&str; 5] = ["a:", "b:", "box:", "p:", "id"];
const APP: u64 = 1;
const LETV: u64 = 2;
const LETF: u64 = 4;
const OPEN: u64 = 8;
const ISA: u64 = 16;
const RET: u64 = 32;
const ANN: u64 = 64;
const PAIR: u64 = 128;
const SPLIT: u64 = 256;
const LETFA: u64 = 512;
const REC: u64 = 1024;
const USEB: u64 = 2048;
const LETVA: u64 = 4096;

/// what a local function may be annotated with; 0 is nothing, X is a type parameter of the function around it
const LANN: [&str; 5] = ["", "{(-> A A)} ", "{(forall Z) (-> Z Z)} ", "{(-> X X)} ", "{(forall Z) (-> Z (Box Z))} "];
/// what a term or local variable may be; Z is the type parameter of the local function around it
const TANN: [&str; 4] = ["A", "(Box A)", "X", "Z"];

struct Gen { ops: u64, next: usize, x: bool, z: bool }
impl Gen {
    fn new_var(&mut self) -> usize { self.next += 1; self.next - 1 }
    fn tann(&self) -> usize { let mut o = vec![0, 1]; if self.x { o.push(2) } if self.z { o.push(3) } Self::of(&o) }
    fn of(xs: &[usize]) -> usize { xs[sx::pick(xs.len())] }
    fn term(&mut self, n: u64, env: &mut Vec<usize>) -> T {
        let mut leaves = vec![A];
        if self.ops & USEB != 0 { leaves.push(B); }
        leaves.extend(env.iter());
        if n == 0 { return T::Var(Self::of(&leaves)); }
        let split = |n: u64| sx::pick(n as usize) as u64;
        let mut ops = vec![];
        for b in [APP, LETV, LETF, OPEN, ISA, RET, ANN, PAIR, SPLIT, LETFA, LETVA] { if self.ops & b != 0 { ops.push(b); } }
        let k = env.len();
        let t = match ops[sx::pick(ops.len())] {
            APP => {
                let mut callees = env.clone();
                callees.push(ID);
                if self.ops & (OPEN | LETFA) != 0 { callees.push(BOX); }
                let f = Self::of(&callees);
                T::App(f, vec![self.term(n - 1, env)])
            }
            op @ LETV | op @ LETVA => {
                let ann = if op == LETVA { Some(self.tann()) } else { None };
                let l = split(n);
                let e = self.term(l, env);
                let v = self.new_var();
                env.push(v);
                T::LetV(v, ann, Box::new(e), Box::new(self.term(n - 1 - l, env)))
            }
            op @ LETF | op @ LETFA => {
                let ann = if op == LETFA { 1 + sx::pick(if self.x { 4 } else { 2 }) } else { 0 };
                let l = split(n);
                let (f, p) = (self.new_var(), self.new_var());
                if self.ops & REC != 0 { env.push(f); }
                env.push(p);
                let z = self.z;
                self.z = z || ann == 2 || ann == 4;
                let e = self.term(l, env);
                self.z = z;
                env.truncate(k);
                env.push(f);
                T::LetF(f, p, ann, Box::new(e), Box::new(self.term(n - 1 - l, env)))
            }
            OPEN => {
                let l = split(n);
                let e = self.term(l, env);
                let v = self.new_var();
                env.push(v);
                T::Open(Box::new(e), v, Box::new(self.term(n - 1 - l, env)))
            }
            SPLIT => {
                let l = split(n);
                let e = self.term(l, env);
                let (v, w) = (self.new_var(), self.new_var());
                env.push(v);
                env.push(w);
                T::Split(Box::new(e), v, w, Box::new(self.term(n - 1 - l, env)))
            }
            ISA => { let l = split(n); let e = self.term(l, env); T::IsA(Box::new(e), Box::new(self.term(n - 1 - l, env))) }
            PAIR => { let l = split(n); let e = self.term(l, env); T::App(P, vec![e, self.term(n - 1 - l, env)]) }
            ANN => { let a = self.tann(); T::Ann(Box::new(self.term(n - 1, env)), a) }
            _ => T::Ret(Box::new(self.term(n - 1, env))),
        };
        env.truncate(k);
        t
    }
}
fn name(v: usize, s: &mut String) {
    if v < FIRST { s.push_str(FIXED[v]) } else { s.push('v'); s.push((b'a' + (v - FIRST) as u8) as char) }
}
fn text(t: &T, s: &mut String) {
    match t {
        T::Var(v) => name(*v, s),
        T::App(f, xs) => { s.push('('); name(*f, s); for x in xs { s.push(' '); text(x, s); } s.push(')'); }
        T::LetV(v, a, e, r) => { s.push_str("(let (["); name(*v, s); s.push(' '); if let Some(a) = a { s.push('{'); s.push_str(TANN[*a]); s.push_str("} "); } text(e, s); s.push_str("]) "); text(r, s); s.push(')'); }
        T::LetF(f, p, a, e, r) => { s.push_str("(let ([("); name(*f, s); s.push(' '); name(*p, s); s.push_str(") "); s.push_str(LANN[*a]); text(e, s); s.push_str("]) "); text(r, s); s.push(')'); }
        T::Open(e, v, r) => { s.push_str("(match "); text(e, s); s.push_str(" [(box: (let "); name(*v, s); s.push_str(")) "); text(r, s); s.push_str("])"); }
        T::Split(e, v, w, r) => { s.push_str("(match "); text(e, s); s.push_str(" [(p: (let "); name(*v, s); s.push_str(") (let "); name(*w, s); s.push_str(")) "); text(r, s); s.push_str("])"); }
        T::IsA(e, r) => { s.push_str("(match "); text(e, s); s.push_str(" [a: "); text(r, s); s.push_str("])"); }
        T::Ann(e, a) => { s.push_str("(annotate "); text(e, s); s.push(' '); s.push_str(TANN[*a]); s.push(')'); }
        T::Ret(e) => { s.push_str("(return "); text(e, s); s.push(')'); }
    }
}
fn uses(t: &T, v: usize) -> bool {
    match t {
        T::Var(x) => *x == v,
        T::App(f, xs) => *f == v || xs.iter().any(|x| uses(x, v)),
        T::LetV(_, _, a, b) | T::LetF(_, _, _, a, b) | T::Open(a, _, b) | T::Split(a, _, _, b) | T::IsA(a, b) => uses(a, v) || uses(b, v),
        T::Ann(a, _) | T::Ret(a) => uses(a, v),
    }
}

/// Type constructors of the model: A B Box P, functions of 1 and 2 arguments, and names standing for themselves.
const FUN1: usize = 4;
const FUN2: usize = 5;
const RIGID: usize = 6;
#[derive(Clone)]
enum N { Var, Link(usize), Con(usize, Vec<usize>) }
#[derive(Clone)]
struct Scheme { vars: Vec<usize>, body: usize }
struct Bad;
struct W { n: Vec<N>, env: Vec<Option<Scheme>>, scope: Vec<usize>, out: Vec<usize>, quantified: Vec<usize>, rigid: usize, x: Option<usize>, z: Option<usize> }
impl W {
    fn var(&mut self) -> usize { self.n.push(N::Var); self.n.len() - 1 }
    fn con(&mut self, c: usize, xs: Vec<usize>) -> usize { self.n.push(N::Con(c, xs)); self.n.len() - 1 }
    fn find(&self, mut t: usize) -> usize { while let N::Link(u) = self.n[t] { t = u; } t }
    fn occurs(&self, v: usize, t: usize) -> bool { let t = self.find(t); t == v || matches!(&self.n[t], N::Con(_, xs) if xs.iter().any(|x| self.occurs(v, *x))) }
    fn unify(&mut self, a: usize, b: usize) -> Result<(), Bad> {
        let (a, b) = (self.find(a), self.find(b));
        if a == b { return Ok(()); }
        match (self.n[a].clone(), self.n[b].clone()) {
            (N::Var, _) => if self.occurs(a, b) { Err(Bad) } else { self.n[a] = N::Link(b); Ok(()) },
            (_, N::Var) => self.unify(b, a),
            (N::Con(c, xs), N::Con(d, ys)) => {
                if c != d { return Err(Bad); }
                for (x, y) in xs.iter().zip(&ys) { self.unify(*x, *y)?; }
                Ok(())
            }
            _ => Err(Bad),
        }
    }
    fn free(&self, t: usize, out: &mut Vec<usize>) {
        let t = self.find(t);
        match &self.n[t] { N::Con(_, xs) => for x in xs { self.free(*x, out) }, _ => if !out.contains(&t) { out.push(t) } }
    }
    fn inst(&mut self, s: &Scheme) -> usize { let m: Vec<(usize, usize)> = s.vars.iter().map(|v| (*v, self.var())).collect(); self.subst(&m, s.body) }
    fn subst(&mut self, m: &[(usize, usize)], t: usize) -> usize {
        let t = self.find(t);
        if let Some((_, u)) = m.iter().find(|(v, _)| *v == t) { return *u; }
        match self.n[t].clone() {
            N::Con(c, xs) if !xs.is_empty() => { let ys = xs.iter().map(|x| self.subst(m, *x)).collect(); self.con(c, ys) }
            _ => t,
        }
    }
    fn bind(&mut self, v: usize, s: Scheme) { while self.env.len() <= v { self.env.push(None); } self.env[v] = Some(s); self.scope.push(v); }
    fn mono(&mut self, v: usize, t: usize) { self.bind(v, Scheme { vars: vec![], body: t }); }
    /// the variables of a type that nothing in scope mentions
    fn general(&mut self, t: usize) -> Scheme {
        let mut kept = vec![];
        for v in self.scope.clone() {
            let s = self.env[v].clone().unwrap();
            let mut f = vec![];
            self.free(s.body, &mut f);
            kept.extend(f.into_iter().filter(|v| !s.vars.contains(v)));
        }
        let mut vars = vec![];
        self.free(t, &mut vars);
        vars.retain(|v| !kept.contains(v));
        self.quantified.extend(vars.iter());
        Scheme { vars, body: t }
    }
    fn rigid(&mut self) -> usize { self.rigid += 1; let c = RIGID + self.rigid - 1; self.con(c, vec![]) }
    /// an annotation read with its own parameters standing for themselves, and generalised over them
    fn lann(&mut self, a: usize) -> (usize, Scheme) {
        let at = |w: &mut W, z: usize| -> usize {
            match a {
                1 | 3 => w.con(FUN1, vec![z, z]),
                2 => w.con(FUN1, vec![z, z]),
                _ => { let b = w.con(BOX, vec![z]); w.con(FUN1, vec![z, b]) }
            }
        };
        match a {
            1 => { let z = self.con(A, vec![]); let t = at(self, z); (t, Scheme { vars: vec![], body: t }) }
            3 => { let z = self.x.unwrap(); let t = at(self, z); (t, Scheme { vars: vec![], body: t }) }
            _ => {
                let z = self.rigid();
                let inside = at(self, z);
                let v = self.var();
                let outside = at(self, v);
                (inside, Scheme { vars: vec![v], body: outside })
            }
        }
    }
    fn tann(&mut self, a: usize) -> usize {
        match a { 0 => self.con(A, vec![]), 1 => { let a = self.con(A, vec![]); self.con(BOX, vec![a]) } 2 => self.x.unwrap(), _ => self.z.unwrap() }
    }
    fn go(&mut self, t: &T, ret: usize) -> Result<usize, Bad> {
        let k = self.scope.len();
        let r = match t {
            T::Var(v) => { let s = self.env[*v].clone().unwrap(); let r = self.inst(&s); self.out.push(r); r }
            T::App(f, xs) => {
                let s = self.env[*f].clone().unwrap();
                let c = self.inst(&s);
                self.out.push(c);
                let mut ts = vec![];
                for x in xs { ts.push(self.go(x, ret)?); }
                let r = self.var();
                ts.push(r);
                let g = self.con(if xs.len() == 1 { FUN1 } else { FUN2 }, ts);
                self.unify(c, g)?;
                r
            }
            T::LetV(v, n, e, b) => { let a = self.go(e, ret)?; if let Some(n) = n { let n = self.tann(*n); self.unify(a, n)?; } self.mono(*v, a); self.out.push(a); self.go(b, ret)? }
            T::LetF(f, p, a, e, b) => {
                let (fun, outer) = match *a {
                    0 => { let (x, y) = (self.var(), self.var()); (self.con(FUN1, vec![x, y]), None) }
                    a => { let (i, o) = self.lann(a); (i, Some(o)) }
                };
                let (x, y) = match &self.n[fun] { N::Con(_, xs) => (xs[0], xs[1]), _ => return Err(Bad) };
                match &outer { None => self.mono(*f, fun), Some(s) => self.bind(*f, s.clone()) }
                self.mono(*p, x);
                self.out.push(fun);
                let z = self.z;
                if outer.as_ref().is_some_and(|s| !s.vars.is_empty()) { self.z = Some(x); }
                let r = self.go(e, y)?;
                self.z = z;
                self.unify(r, y)?;
                self.scope.truncate(k);
                // what an annotation's parameter stands for means nothing outside
                let own = self.find(x);
                if outer.as_ref().is_some_and(|s| !s.vars.is_empty()) {
                    for v in self.scope.clone() { let s = self.env[v].clone().unwrap(); if self.occurs(own, s.body) { return Err(Bad); } }
                }
                let s = match outer { None => self.general(fun), Some(s) => s };
                self.bind(*f, s);
                self.go(b, ret)?
            }
            T::Open(e, v, b) => {
                let a = self.go(e, ret)?;
                let x = self.var();
                let bx = self.con(BOX, vec![x]);
                self.unify(a, bx)?;
                self.out.push(x);
                self.mono(*v, x);
                self.go(b, ret)?
            }
            T::Split(e, v, w, b) => {
                let a = self.go(e, ret)?;
                let (x, y) = (self.var(), self.var());
                let p = self.con(P, vec![x, y]);
                self.unify(a, p)?;
                self.out.push(x);
                self.out.push(y);
                self.mono(*v, x);
                self.mono(*w, y);
                self.go(b, ret)?
            }
            T::IsA(e, b) => { let a = self.go(e, ret)?; let c = self.con(A, vec![]); self.unify(a, c)?; self.go(b, ret)? }
            T::Ann(e, a) => {
                let r = self.go(e, ret)?;
                let ta = self.tann(*a);
                self.unify(r, ta)?;
                r
            }
            T::Ret(e) => { let a = self.go(e, ret)?; self.unify(ret, a)?; self.var() }
        };
        self.scope.truncate(k);
        Ok(r)
    }
}
fn model() -> W {
    let mut w = W { n: vec![], env: vec![], scope: vec![], out: vec![], quantified: vec![], rigid: 0, x: None, z: None };
    let a = w.con(A, vec![]);
    w.mono(A, a);
    let b = w.con(B, vec![]);
    w.mono(B, b);
    let v = w.var();
    let bx = w.con(BOX, vec![v]);
    let f = w.con(FUN1, vec![v, bx]);
    w.bind(BOX, Scheme { vars: vec![v], body: f });
    let (x, y) = (w.var(), w.var());
    let p = w.con(P, vec![x, y]);
    let f = w.con(FUN2, vec![x, y, p]);
    w.bind(P, Scheme { vars: vec![x, y], body: f });
    let v = w.var();
    let f = w.con(FUN1, vec![v, v]);
    w.bind(ID, Scheme { vars: vec![v], body: f });
    w.scope.clear();
    w
}

/// Compares the types the module was given with the model's, up to the names of type parameters.
struct Same<'a> { w: &'a W, world: &'a World, at: usize, names: BTreeMap<usize, ast::NodeId<ast::TypeParameter>>, cons: [ast::NodeId<ast::DataTypeCon>; 4] }
impl<'a> Same<'a> {
    fn ty(&mut self, t: usize, r: &Type) -> bool {
        let t = self.w.find(t);
        let key = match &self.w.n[t] {
            N::Con(c, xs) if *c < RIGID => {
                let con = if *c == FUN1 { TypeCon::fun(1) } else if *c == FUN2 { TypeCon::fun(2) } else { TypeCon::Data(self.cons[*c]) };
                return match r {
                    Type::Con(d) => xs.is_empty() && *d == con,
                    Type::App(d, ys) => matches!(**d, Type::Con(d) if d == con) && xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| self.ty(*x, y)),
                    _ => false,
                };
            }
            N::Con(..) => t,
            _ => {
                if !self.w.quantified.contains(&t) { return *r == Type::Con(TypeCon::unit()); }
                t
            }
        };
        // a parameter stands for itself everywhere
        let key = match &self.w.n[key] { N::Con(c, _) => usize::MAX - *c, _ => key };
        match r {
            Type::Gen(g) => match self.names.get(&key) {
                Some(h) => h == g,
                None => { let fresh = !self.names.values().any(|h| h == g); self.names.insert(key, *g); fresh }
            },
            _ => false,
        }
    }
    fn next(&mut self, r: Option<&Type>) {
        let t = self.w.out[self.at];
        self.at += 1;
        let ok = match r { Some(r) => self.ty(t, r), None => false };
        sx::check(ok, c"everything in a function has its most general type");
    }
    fn it(&self) -> &'a llrl::module::InferredTypes { self.world.modules[1].inferred_types() }
    fn use_(&mut self, e: &Expr) {
        let it = self.it();
        self.next(it.type_(e.id));
        let scheme = match &e.rep {
            ExprRep::Use(Use::Resolved(Value::Function(i), _)) => it.scheme(*i),
            ExprRep::Use(Use::Resolved(Value::LocalFun(i), _)) => it.scheme(*i),
            ExprRep::Con(ValueCon::Data(i)) => it.scheme(*i),
            _ => None,
        };
        let inst = it.instantiation(e.id);
        sx::check(inst.is_some(), c"a use of a name has an instantiation");
        let inst = inst.unwrap();
        if let Some(s) = scheme {
            sx::check(inst.ty_args.len() == s.ty_params.len(), c"an instantiation has an argument for every parameter");
            sx::check(it.type_(e.id) == Some(&at(&s.body, s, &inst.ty_args)), c"a use has the type of the definition at its instantiation");
        }
    }
    fn go(&mut self, t: &T, e: &Expr) {
        let it = self.it();
        match (t, &e.rep) {
            (T::Var(_), _) => self.use_(e),
            (T::App(_, xs), ExprRep::App(a)) => { self.use_(&a.callee); for (x, e) in xs.iter().zip(&a.args) { self.go(x, e); } }
            (T::LetV(_, _, x, b), ExprRep::Let(l)) => match &l.defs[0] {
                Left(v) => { self.go(x, &v.init); self.next(it.type_(v.id)); self.go(b, &l.body); }
                _ => sx::check(false, c"a local variable stays one"),
            },
            (T::LetF(_, _, _, x, b), ExprRep::Let(l)) => match &l.defs[0] {
                Right(f) => {
                    let s = it.scheme(f.id);
                    sx::check(s.is_some(), c"a local function has a type");
                    self.next(s.map(|s| &s.body));
                    let p = s.and_then(|s| s.body.matches_fun()).map(|(p, _)| &p[0]);
                    sx::check(p.is_some() && it.type_(f.params[0].id) == p, c"a parameter has the type its function takes");
                    self.go(x, &f.body);
                    self.go(b, &l.body);
                }
                _ => sx::check(false, c"a local function stays one"),
            },
            (T::Open(x, _, b), ExprRep::Match(m)) | (T::Split(x, _, _, b), ExprRep::Match(m)) | (T::IsA(x, b), ExprRep::Match(m)) => {
                self.go(x, &m.target);
                self.pattern(&m.clauses[0].0);
                self.go(b, &m.clauses[0].1);
            }
            (T::Ann(x, _), ExprRep::Annotate(a)) => self.go(x, &a.body),
            (T::Ret(x), ExprRep::Return(r)) => self.go(x, r.as_ref().as_ref().unwrap()),
            _ => sx::check(false, c"the term keeps its form"),
        }
    }
    fn pattern(&mut self, p: &Pattern) {
        match &p.rep {
            PatternRep::Decon(d) => for f in d.fields.iter().flatten() { self.pattern(f); },
            PatternRep::Var(v) => { let it = self.it(); self.next(it.type_(v.id)); }
            _ => sx::check(false, c"a pattern keeps its form"),
        }
    }
}
fn at(t: &Type, s: &ast::Scheme, args: &[Type]) -> Type {
    match t {
        Type::Gen(g) => match s.ty_params.iter().position(|p| p.id == *g) { Some(i) => args[i].clone(), None => t.clone() },
        Type::App(c, xs) => Type::App(Box::new(at(c, s, args)), xs.iter().map(|x| at(x, s, args)).collect()),
        _ => t.clone(),
    }
}
const HEAD: &str = "(no-implicit-std)(data A a:)(data B b:)(data (Box T) (box: T))(data (P X Y) (p: X Y))(function (id x) x)";
const FANN: [&str; 5] = ["", "{(-> A A)} ", "{(forall X) (-> X X)} ", "{(forall X Y) (-> X Y)} ", "{(forall X) (-> X (Box X))} "];

/// one function: every term of n inner nodes of the given forms, annotated or not
#[no_mangle]
pub extern "C" fn h_infer(n: u64, ops: u64, ann: u64) { infer(1, n, ops, ann) }
/// two functions that may call each other
#[no_mangle]
pub extern "C" fn h_infer2(n: u64, ops: u64, ann: u64) { infer(2, n, ops, ann) }

fn infer(count: usize, n: u64, ops: u64, anns: u64) {
    let world = Box::leak(Box::new(World::new()));
    world.add_builtin();
    let ann: Vec<usize> = (0..count).map(|_| if anns == 0 { 0 } else { sx::pick(FANN.len()) }).collect();
    let mut s = String::from(HEAD);
    let mut g = Gen { ops, next: FIRST + count, x: false, z: false };
    let mut w = model();
    let mut params = vec![];
    let mut terms = vec![];
    for i in 0..count {
        let p = g.new_var();
        params.push(p);
        let mut env: Vec<usize> = if count > 1 || ops & REC != 0 { (FIRST..FIRST + count).collect() } else { vec![] };
        env.push(p);
        // the parameters of a top-level function's annotation are in scope in it
        g.x = ann[i] >= 2;
        let t = g.term(n, &mut env);
        s.push_str("(function (");
        name(FIRST + i, &mut s);
        s.push(' ');
        name(p, &mut s);
        s.push_str(") ");
        s.push_str(FANN[ann[i]]);
        text(&t, &mut s);
        s.push(')');
        terms.push(t);
    }
    // the model: annotated functions have the types they declare, the others are taken in the order of their calls
    let mut inside = vec![0; count];
    let mut marks = vec![(0, 0); count];
    for i in 0..count {
        let (f, mut vars) = match ann[i] {
            0 => continue,
            1 => { let a = w.con(A, vec![]); (w.con(FUN1, vec![a, a]), vec![]) }
            2 => { let x = w.var(); (w.con(FUN1, vec![x, x]), vec![x]) }
            3 => { let (x, y) = (w.var(), w.var()); (w.con(FUN1, vec![x, y]), vec![x, y]) }
            _ => { let x = w.var(); let b = w.con(BOX, vec![x]); (w.con(FUN1, vec![x, b]), vec![x]) }
        };
        vars.truncate(2);
        w.bind(FIRST + i, Scheme { vars, body: f });
    }
    w.scope.clear();
    let implicit: Vec<usize> = (0..count).filter(|i| ann[*i] == 0).collect();
    let calls = |i: usize, j: usize| uses(&terms[i], FIRST + j);
    let groups: Vec<Vec<usize>> = match implicit[..] {
        [0, 1] if calls(0, 1) && calls(1, 0) => vec![vec![0, 1]],
        [0, 1] if calls(0, 1) => vec![vec![1], vec![0]],
        _ => implicit.iter().map(|i| vec![*i]).collect(),
    };
    let explicit: Vec<Vec<usize>> = (0..count).filter(|i| ann[*i] != 0).map(|i| vec![i]).collect();
    let mut run = |w: &mut W| -> Result<(), Bad> {
        for group in groups.iter().chain(&explicit) {
            for i in group {
                inside[*i] = if ann[*i] == 0 {
                    let (x, y) = (w.var(), w.var());
                    let f = w.con(FUN1, vec![x, y]);
                    w.mono(FIRST + i, f);
                    f
                } else {
                    let s = w.env[FIRST + i].clone().unwrap();
                    let m: Vec<(usize, usize)> = s.vars.iter().map(|v| (*v, w.rigid())).collect();
                    w.x = m.first().map(|x| x.1);
                    w.subst(&m, s.body)
                };
            }
            for i in group {
                let (x, y) = match &w.n[inside[*i]] { N::Con(_, xs) => (xs[0], xs[1]), _ => return Err(Bad) };
                let k = w.scope.len();
                w.mono(params[*i], x);
                let from = w.out.len();
                let r = w.go(&terms[*i], y)?;
                marks[*i] = (from, w.out.len());
                w.unify(r, y)?;
                w.scope.truncate(k);
            }
            if ann[group[0]] == 0 {
                // what is common to the types of all functions of a group is generalised
                let mut vars: Vec<usize> = vec![];
                for (k, i) in group.iter().enumerate() {
                    let mut f = vec![];
                    w.free(inside[*i], &mut f);
                    if k == 0 { vars = f } else { vars.retain(|v| f.contains(v)) }
                }
                // leaving alone what an earlier group still has to settle
                let mut kept = vec![];
                for v in w.scope.clone() {
                    if group.iter().any(|i| FIRST + i == v) { continue; }
                    let s = w.env[v].clone().unwrap();
                    let mut f = vec![];
                    w.free(s.body, &mut f);
                    kept.extend(f.into_iter().filter(|v| !s.vars.contains(v)));
                }
                vars.retain(|v| !kept.contains(v));
                w.quantified.extend(vars.iter());
                for i in group { w.env[FIRST + i] = Some(Scheme { vars: vars.clone(), body: inside[*i] }); }
            }
        }
        Ok(())
    };
    let ok = run(&mut w).is_ok();
    match world.add("~/a", &s).map_err(|e| e.drop_context_info()) {
        Ok(()) => {
            sx::check(ok, c"a function that has no type is refused");
            sx::reach(1);
            let m = &world.modules[1];
            let root = m.ast_root();
            let sym = m.symbol_map();
            let con = |name: &str| *root.data_type_cons.keys().find(|f| sym.get(**f).unwrap().name == name).unwrap();
            let cons = [con("A"), con("B"), con("Box"), con("P")];
            for i in 0..count {
                let mut fname = String::new();
                name(FIRST + i, &mut fname);
                let f = root.functions.values().find(|f| sym.get(f.id).unwrap().name == fname).unwrap();
                let mut same = Same { w: &w, world, at: marks[i].0, names: BTreeMap::new(), cons };
                let sc = m.inferred_types().scheme(f.id);
                sx::check(sc.is_some(), c"a function has a type");
                let sc = sc.unwrap();
                sx::check(same.ty(inside[i], &sc.body), c"a function has its most general type");
                let p = sc.body.matches_fun().map(|(p, _)| &p[0]);
                sx::check(p.is_some() && m.inferred_types().type_(f.params.as_ref().unwrap()[0].id) == p, c"a parameter has the type its function takes");
                same.go(&terms[i], &f.body);
                sx::check(same.at == marks[i].1, c"everything was compared");
            }
        }
        Err(Error::CannotUnifyType(..)) => { sx::reach(2); sx::check(!ok, c"a function that has a type is accepted"); }
        Err(_) => sx::check(false, c"nothing else is wrong with these functions"),
    }
}
