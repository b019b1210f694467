//! S04: unification of types and of kinds against Robinson's algorithm on terms.
use crate::sx;
use llrl::ast::{self, KindBuilder, ModuleId, NodeId, TypeBuilder};
use llrl::unification::kind;
use llrl::unification::types::{self, Resolve};
use llrl::unification::Level;
use std::borrow::Cow;

#[derive(Clone, PartialEq)]
enum T { V(usize), K(usize), App(Box<T>, Vec<T>) }

/// Substitution of the reference algorithm: triangular, applied on demand.
struct Sub(Vec<Option<T>>);
impl Sub {
    fn walk(&self, t: &T) -> T {
        let mut t = t.clone();
        while let T::V(v) = t { match &self.0[v] { Some(u) => t = u.clone(), None => break } }
        t
    }
    fn occurs(&self, v: usize, t: &T) -> bool {
        match self.walk(t) { T::V(u) => u == v, T::K(_) => false, T::App(f, a) => self.occurs(v, &f) || a.iter().any(|x| self.occurs(v, x)) }
    }
    fn unify(&mut self, a: &T, b: &T) -> bool {
        match (self.walk(a), self.walk(b)) {
            (T::V(x), T::V(y)) if x == y => true,
            (T::V(x), t) | (t, T::V(x)) => { if self.occurs(x, &t) { return false } self.0[x] = Some(t); true }
            (T::K(x), T::K(y)) => x == y,
            (T::App(f, a), T::App(g, b)) => a.len() == b.len() && self.unify(&f, &g) && a.iter().zip(&b).all(|(x, y)| self.unify(x, y)),
            _ => false,
        }
    }
    fn leaves(&self, t: &T, out: &mut Vec<T>) {
        match self.walk(t) { T::App(f, a) => { self.leaves(&f, out); for x in &a { self.leaves(x, out) } } t => out.push(t) }
    }
}

#[derive(Clone, Debug)]
struct Env;
const DATA: u32 = 7;
fn con(i: usize) -> ast::TypeCon { ast::TypeCon::Data(NodeId::new_unchecked(ModuleId::from_index(1), DATA + i as u32)) }
fn gen() -> types::Gen { NodeId::new_unchecked(ModuleId::from_index(1), 50) }
fn kfun(n: usize) -> ast::Kind { if n == 0 { ast::Kind::Type } else { ast::Kind::Fun(vec![ast::Kind::Type; n], Box::new(ast::Kind::Type)) } }
impl types::KindEnvironment for Env {
    fn resolve_kind(&self, c: impl Into<ast::Construct>) -> Cow<'_, ast::Kind> {
        // constant i takes i arguments; the type parameter takes none
        match c.into() {
            ast::Construct::DataTypeCon(id) => Cow::Owned(kfun((id.index_in_module() - DATA) as usize)),
            _ => Cow::Owned(ast::Kind::Type),
        }
    }
}
type Ctx = types::Context<Env>;
fn level(l: u32) -> Level { unsafe { std::mem::transmute(l) } }

// variables 0..NV are types, NV is a type constructor of one argument
const NV: usize = 3;
const GEN: usize = 9;
/// leaves: a variable, the constant 0, the type parameter (if wanted)
fn term(depth: u64, gens: bool) -> T {
    let leaves = NV + 1 + gens as usize;
    let c = sx::pick(leaves + if depth > 0 { 3 } else { 0 });
    if c < NV { return T::V(c) }
    if c == NV { return T::K(0) }
    if gens && c == NV + 1 { return T::K(GEN) }
    match c - leaves {
        0 => T::App(Box::new(T::K(1)), vec![term(depth - 1, gens)]),
        1 => { let x = term(depth - 1, gens); let y = term(depth - 1, gens); T::App(Box::new(T::K(2)), vec![x, y]) }
        _ => T::App(Box::new(T::V(NV)), vec![term(depth - 1, gens)]),
    }
}
fn build(c: &mut Ctx, vs: &[types::Type], gl: u32, t: &T) -> types::Type {
    match t {
        T::V(v) => vs[*v],
        T::K(GEN) => types::Type::Gen(gen(), level(gl)),
        T::K(k) => c.new_con(con(*k)),
        T::App(f, a) => { let f = build(c, vs, gl, f); let a = a.iter().map(|x| build(c, vs, gl, x)).collect(); c.new_app(f, a) }
    }
}
/// is the type `t` the term `m`, up to the names of variables?
fn same(c: &mut Ctx, s: &Sub, t: types::Type, m: &T, map: &mut Vec<Option<types::Var>>) -> bool {
    match (c.resolve(t), s.walk(m)) {
        (types::Type::Var(v, _, _), T::V(u)) => match map[u] {
            Some(w) => w == v,
            None => { if map.iter().any(|x| *x == Some(v)) { return false } map[u] = Some(v); true }
        },
        (types::Type::Con(k), T::K(i)) => i != GEN && k == con(i),
        (types::Type::Gen(g, _), T::K(i)) => i == GEN && g == gen(),
        (types::Type::App(f, a), T::App(g, b)) => {
            let ft = c.resolve(f);
            if a.len() as usize != b.len() || !same(c, s, ft, &g, map) { return false }
            for (x, y) in a.iter().zip(&b) { let xt = c.resolve(x); if !same(c, s, xt, y, map) { return false } }
            true
        }
        _ => false,
    }
}
/// `eqs` equations, the left sides of depth dl & 7, the right sides of depth dr & 7. dl & 8: the left side of
/// each equation is a variable. dr & 8: levels are arbitrary and there is a type parameter; otherwise all levels are equal.
#[no_mangle]
pub extern "C" fn h_unify(eqs: u64, dl: u64, dr: u64) {
    let lv = dr & 8 != 0;
    let levels: Vec<u32> = (0..NV + 1).map(|_| if lv { sx::int(32) as u32 } else { 5 }).collect();
    let gl: u32 = if lv { sx::int(32) as u32 } else { 0 };
    let mut c = Ctx::new(Env);
    let k1 = c.kind_table.intern(&kfun(1));
    let mut vs: Vec<types::Type> = (0..NV).map(|i| c.new_type_var(level(levels[i]))).collect();
    vs.push(c.new_var(k1, level(levels[NV])));
    let mut s = Sub(vec![None; NV + 1]);
    let mut ok = true;
    for _ in 0..eqs {
        let a = if dl & 8 != 0 { T::V(sx::pick(NV)) } else { term(dl & 7, lv) };
        let b = term(dr & 7, lv);
        let (x, y) = (build(&mut c, &vs, gl, &a), build(&mut c, &vs, gl, &b));
        let want = s.unify(&a, &b);
        let got = c.unify(x, y).is_ok();
        // a type parameter may only go where the level of the variable allows
        let mut escape = false;
        if want && lv {
            for u in 0..NV + 1 {
                let mut l = vec![]; s.leaves(&T::V(u), &mut l);
                if l.iter().any(|t| *t == T::K(GEN)) && levels[u] < gl { escape = true }
            }
        }
        sx::check(got == (want && !escape), c"unification succeeds exactly when the equations have a solution");
        ok = want && got;
        if !ok { break }
        sx::check(c.equal(x, y), c"the two sides are equal afterwards");
        sx::check(c.unify(y, x).is_ok(), c"unifying equal types changes nothing");
    }
    if ok {
        let mut map = vec![None; NV + 1];
        for i in 0..NV + 1 { let r = same(&mut c, &s, vs[i], &T::V(i), &mut map); sx::check(r, c"the solution is most general"); }
        for r in 0..NV + 1 {
            if let T::V(q) = s.walk(&T::V(r)) {
                if q == r && lv {
                    let mut want = levels[r];
                    for u in 0..NV + 1 { let mut l = vec![]; s.leaves(&T::V(u), &mut l); if l.contains(&T::V(r)) && levels[u] < want { want = levels[u] } }
                    match c.resolve(vs[r]) { types::Type::Var(_, _, l) => sx::check(l == level(want), c"a variable has the least level of the variables it is part of"), _ => sx::check(false, c"unsolved") }
                }
            }
        }
        sx::reach(1);
    } else { sx::reach(2); }
}

// ---- kinds
fn kterm(depth: u64) -> T {
    let c = sx::pick(5 + if depth > 0 { 2 } else { 0 });
    if c < 3 { return T::V(c) }
    if c < 5 { return T::K(c - 3) }
    let n = c - 4;
    let mut a: Vec<T> = (0..n).map(|_| kterm(depth - 1)).collect();
    a.push(kterm(depth - 1));
    T::App(Box::new(T::K(9)), a)
}
fn kbuild(c: &mut kind::Context, vs: &[kind::Kind], t: &T) -> kind::Kind {
    match t {
        T::V(v) => vs[*v],
        T::K(0) => kind::Kind::Type,
        T::K(_) => kind::Kind::Constraint,
        T::App(_, a) => {
            let mut a: Vec<kind::Kind> = a.iter().map(|x| kbuild(c, vs, x)).collect();
            let r = a.pop().unwrap();
            c.new_fun(a, r)
        }
    }
}
fn ksame(c: &mut kind::Context, s: &Sub, t: kind::Kind, m: &T, map: &mut Vec<Option<kind::Var>>) -> bool {
    use kind::Resolve;
    match (c.resolve(t), s.walk(m)) {
        (kind::Kind::Var(v), T::V(u)) => match map[u] {
            Some(w) => w == v,
            None => { if map.iter().any(|x| *x == Some(v)) { return false } map[u] = Some(v); true }
        },
        (kind::Kind::Type, T::K(0)) => true,
        (kind::Kind::Constraint, T::K(1)) => true,
        (kind::Kind::Fun(a, r), T::App(_, b)) => {
            if a.len() as usize + 1 != b.len() { return false }
            for (x, y) in a.iter().zip(&b) { let xt = c.resolve(x); if !ksame(c, s, xt, y, map) { return false } }
            let rt = c.resolve(r);
            ksame(c, s, rt, &b[b.len() - 1], map)
        }
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_kind(eqs: u64, d: u64) {
    let mut c = kind::Context::new();
    let vs: Vec<kind::Kind> = (0..3).map(|_| c.new_var()).collect();
    let mut s = Sub(vec![None; 3]);
    let mut ok = true;
    for _ in 0..eqs {
        let a = if d & 8 != 0 { T::V(sx::pick(3)) } else { kterm(d & 7) };
        let b = kterm(d & 7);
        let (x, y) = (kbuild(&mut c, &vs, &a), kbuild(&mut c, &vs, &b));
        let want = s.unify(&a, &b);
        let got = c.unify(x, y).is_ok();
        sx::check(got == want, c"unification of kinds succeeds exactly when there is a solution");
        ok = want && got;
        if !ok { break }
        sx::check(c.unify(y, x).is_ok(), c"unifying equal kinds changes nothing");
    }
    if ok {
        let mut map = vec![None; 3];
        for i in 0..3 { let r = ksame(&mut c, &s, vs[i], &T::V(i), &mut map); sx::check(r, c"the solution is most general"); }
        sx::reach(1);
    } else { sx::reach(2); }
}

// ---- one-way matching and substitution
fn ground(depth: u64) -> T {
    let c = sx::pick(2 + if depth > 0 { 3 } else { 0 });
    match c {
        0 => T::K(0),
        1 => T::K(GEN),
        2 => T::App(Box::new(T::K(1)), vec![ground(depth - 1)]),
        3 => { let x = ground(depth - 1); let y = ground(depth - 1); T::App(Box::new(T::K(2)), vec![x, y]) }
        _ => T::App(Box::new(T::K(3)), vec![ground(depth - 1), T::K(0), T::K(0)]),
    }
}
fn tmatch(s: &mut Sub, a: &T, b: &T) -> bool {
    match a {
        T::V(v) => match s.0[*v].clone() { Some(t) => t == *b, None => { s.0[*v] = Some(b.clone()); true } },
        T::K(x) => *b == T::K(*x),
        T::App(f, x) => match b {
            T::App(g, y) => x.len() == y.len() && tmatch(s, f, g) && x.iter().zip(y).all(|(p, q)| tmatch(s, p, q)),
            _ => false,
        },
    }
}
fn has_gen(t: &T) -> bool { match t { T::V(_) => false, T::K(k) => *k == GEN, T::App(f, a) => has_gen(f) || a.iter().any(has_gen) } }
/// the left side is matched against a type without variables (as an instance is with a constraint); levels are arbitrary
#[no_mangle]
pub extern "C" fn h_match(dl: u64, dr: u64) {
    let levels: Vec<u32> = (0..NV + 1).map(|_| sx::int(32) as u32).collect();
    let gl = sx::int(32) as u32;
    let mut c = Ctx::new(Env);
    let k1 = c.kind_table.intern(&kfun(1));
    let mut vs: Vec<types::Type> = (0..NV).map(|i| c.new_type_var(level(levels[i]))).collect();
    vs.push(c.new_var(k1, level(levels[NV])));
    let a = term(dl, true);
    let b = ground(dr);
    let (x, y) = (build(&mut c, &vs, gl, &a), build(&mut c, &vs, gl, &b));
    let mut s = Sub(vec![None; NV + 1]);
    let fits = tmatch(&mut s, &a, &b);
    let escape = (0..NV + 1).any(|u| levels[u] < gl && s.0[u].as_ref().map_or(false, has_gen));
    let got = c.match_to_right(x, y).is_ok();
    sx::check(got == (fits && !escape), c"matching succeeds exactly when the left side has an instance equal to the right side");
    if got {
        sx::check(c.equal(x, y), c"the left side is then the right side");
        for u in 0..NV + 1 { let m = s.0[u].is_some(); sx::check(m != matches!(c.resolve(vs[u]), types::Type::Var(..)), c"only variables of the left side are bound"); }
        sx::reach(1);
    } else { sx::reach(2); }
}
fn tsubst(t: &T, by: &T) -> T {
    match t { T::K(GEN) => by.clone(), T::App(f, a) => T::App(Box::new(tsubst(f, by)), a.iter().map(|x| tsubst(x, by)).collect()), t => t.clone() }
}
/// substitution for a type parameter
#[no_mangle]
pub extern "C" fn h_subst(d: u64, dby: u64) {
    let mut c = Ctx::new(Env);
    let k1 = c.kind_table.intern(&kfun(1));
    let mut vs: Vec<types::Type> = (0..NV).map(|_| c.new_type_var(level(5))).collect();
    vs.push(c.new_var(k1, level(5)));
    let (t, by, u) = (term(d, true), term(dby, false), term(d, false));
    let (xt, xb, xu) = (build(&mut c, &vs, 1, &t), build(&mut c, &vs, 1, &by), build(&mut c, &vs, 1, &u));
    let mut map = std::collections::HashMap::new();
    map.insert(gen(), xb);
    let want = tsubst(&t, &by);
    let xw = build(&mut c, &vs, 1, &want);
    let got = c.subst(&map, xt);
    sx::check(c.equal(got, xw), c"substitution replaces every occurrence of the parameter");
    sx::check(c.equal_on_subst(&map, xt, xw), c"equality after substitution");
    let e = want == u;
    sx::check(c.equal_on_subst(&map, xt, xu) == e, c"equality after substitution, of any two types");
    sx::check(c.equal(got, xu) == e, c"equality is equality of structure");
    if e { sx::reach(1) } else { sx::reach(2) }
}
