//! Which instance satisfies a class constraint, and when none does.
use crate::{sx, World};
use llrl::ast::{self, ConstraintRep, ExprRep, Instantiation, Satisfaction, Type, TypeCon, Use};
use llrl::module::Error;

/// Types: X is the type of the parameter of the function or instance at hand.
#[derive(Clone, PartialEq)]
enum G { A, B, I, X, Box(Box<G>) }
fn bx(g: G) -> G { G::Box(Box::new(g)) }
fn put(g: &G, x: &G) -> G { match g { G::X => x.clone(), G::Box(t) => bx(put(t, x)), g => g.clone() } }
/// what X has to be for the pattern to become the type
fn fit(p: &G, t: &G, x: &mut Option<G>) -> bool {
    match (p, t) {
        (G::X, _) => match x { Some(y) => y == t, None => { *x = Some(t.clone()); true } },
        (G::Box(p), G::Box(t)) => fit(p, t, x),
        (p, t) => p == t,
    }
}
/// whether some type fits both patterns
fn meet(a: &G, b: &G) -> bool { match (a, b) { (G::X, _) | (_, G::X) => true, (G::Box(a), G::Box(b)) => meet(a, b), (a, b) => a == b } }

const C: usize = 0;
const D: usize = 1;
const E: usize = 2;
/// a class is below the one before it
struct Inst { class: usize, head: G, cond: Option<(usize, G)>, name: &'static str, text: &'static str }
fn instances() -> Vec<Inst> {
    let i = |class, head, cond, name, text| Inst { class, head, cond, name, text };
    vec![
        i(C, G::A, None, "C.1", "(instance C.1 (C A) (function (c x) a:))"),
        i(C, bx(G::X), Some((C, G::X)), "C.2", "(instance C.2 (forall T) (C (Box T)) (where (C T)) (function (c x) (match x [(box: (let y)) (c y)])))"),
        i(C, bx(bx(G::X)), None, "C.3", "(instance C.3 (forall T) (C (Box (Box T))) (function (c x) a:))"),
        i(C, bx(G::A), None, "C.4", "(instance C.4 (C (Box A)) (function (c x) a:))"),
        i(C, G::I, None, "C.5", "(instance C.5 (C I32) (function (c x) a:))"),
        i(C, bx(G::X), Some((D, G::X)), "C.6", "(instance C.6 (forall T) (C (Box T)) (where (D T)) (function (c x) (match x [(box: (let y)) (d y)])))"),
        i(D, G::A, None, "D.1", "(instance D.1 (D A) (function (d x) a:))"),
        i(D, bx(G::X), Some((D, G::X)), "D.2", "(instance D.2 (forall T) (D (Box T)) (where (D T)) (function (d x) (c x)))"),
        i(D, bx(G::X), Some((C, G::X)), "D.3", "(instance D.3 (forall T) (D (Box T)) (where (C T)) (function (d x) (c x)))"),
        i(C, G::X, None, "C.7", "(instance C.7 (forall T) (C T) (function (c x) a:))"),
        i(E, G::A, None, "E.1", "(instance E.1 (E A) (function (e x) a:))"),
        i(E, bx(G::X), Some((E, G::X)), "E.2", "(instance E.2 (forall T) (E (Box T)) (where (E T)) (function (e x) (match x [(box: (let y)) (d y)])))"),
        i(D, bx(G::X), Some((E, G::X)), "D.4", "(instance D.4 (forall T) (D (Box T)) (where (E T)) (function (d x) (match x [(box: (let y)) (c y)])))"),
    ]
}
/// how a constraint is satisfied: by what is assumed, so many superclasses away, or by an instance
#[derive(PartialEq)]
enum How { Assumed(usize), By(usize, Option<G>, Vec<How>) }
struct M { all: Vec<Inst>, on: Vec<usize> }
impl M {
    fn solve(&self, class: usize, t: &G, assumed: Option<&(usize, G)>, depth: usize) -> Option<How> {
        if let Some((k, g)) = assumed {
            if g == t && *k >= class { return Some(How::Assumed(*k - class)); }
        }
        for i in &self.on {
            let inst = &self.all[*i];
            let mut x = None;
            if inst.class == class && fit(&inst.head, t, &mut x) {
                let subs = match &inst.cond {
                    Some((k, g)) => vec![self.solve(*k, &put(g, x.as_ref().unwrap()), assumed, depth + 1)?],
                    None => vec![],
                };
                return Some(How::By(*i, x, subs));
            }
        }
        None
    }
}
struct Real<'a> { w: &'a World, m: &'a M, x: Option<ast::NodeId<ast::TypeParameter>>, assumed: Option<ast::NodeId<ast::Constraint>> }
impl<'a> Real<'a> {
    fn con(&self, name: &str) -> TypeCon {
        let m = &self.w.modules[1];
        TypeCon::Data(*m.ast_root().data_type_cons.keys().find(|i| m.symbol_map().get(**i).unwrap().name == name).unwrap())
    }
    fn ty(&self, g: &G, t: &Type) -> bool {
        match g {
            G::A => *t == Type::Con(self.con("A")),
            G::B => *t == Type::Con(self.con("B")),
            G::I => *t == Type::Con(TypeCon::Builtin(ast::builtin::I32)),
            G::X => matches!(t, Type::Gen(x) if Some(*x) == self.x),
            G::Box(g) => match t { Type::App(c, xs) => **c == Type::Con(self.con("Box")) && xs.len() == 1 && self.ty(g, &xs[0]), _ => false },
        }
    }
    fn instance(&self, i: usize) -> ast::NodeId<ast::InstanceCon> {
        let m = &self.w.modules[1];
        *m.ast_root().instance_cons.keys().find(|k| m.symbol_map().get(**k).unwrap().name == self.m.all[i].name).unwrap()
    }
    fn same(&self, h: &How, s: &Satisfaction) -> bool {
        match (h, s) {
            (How::Assumed(n), Satisfaction::ByPremise(p)) => Some(p.id) == self.assumed && p.path.len() == *n && self.path(&p.path),
            (How::By(i, x, subs), Satisfaction::ByInstance(b)) => {
                let inst = &b.instantiation;
                matches!(b.use_, Use::Resolved(id, _) if id == self.instance(*i))
                    && (match x { Some(g) => inst.ty_args.len() == 1 && self.ty(g, &inst.ty_args[0]), None => inst.ty_args.is_empty() })
                    && self.all(subs, inst)
            }
            _ => false,
        }
    }
    /// steps from a class to the one above it, each from where the last one led
    fn path(&self, path: &[ast::NodeId<ast::Constraint>]) -> bool {
        let m = &self.w.modules[1];
        let at = |id: &ast::NodeId<ast::Constraint>| m.ast_root().class_cons.values().find(|c| c.superclasses.iter().any(|s| s.id == *id));
        let up = |c: &ast::ClassCon| match &c.superclasses[0].rep { ConstraintRep::Class(Use::Resolved(id, _), _) => Some(*id), _ => None };
        path.iter().all(|x| at(x).is_some()) && path.windows(2).all(|x| up(at(&x[0]).unwrap()) == Some(at(&x[1]).unwrap().id))
    }
    fn all(&self, hs: &[How], inst: &Instantiation) -> bool { hs.len() == inst.s_args.len() && hs.iter().zip(&inst.s_args).all(|(h, s)| self.same(h, s)) }
}
const ANN: [&str; 9] = ["", "{(-> A A)} ", "{(forall X) (-> X A)} ", "{(forall X) (-> X A) (where (C X))} ", "{(forall X) (-> X A) (where (D X))} ", "{(forall X) (-> X A) (where (C (Box X)))} ", "{(forall X) (-> X A) (where (D (Box X)))} ", "{(forall X) (-> X A) (where (E X))} ", "{(forall X) (-> X A) (where (E (Box X)))} "];
const ARG: [&str; 7] = ["x", "(box: x)", "(box: (box: x))", "a:", "(box: a:)", "b:", "1"];

/// (function (f x) (c e)), for any set of instances among those of the mask
#[no_mangle]
pub extern "C" fn h_classes(mask: u64, anns: u64, third: u64) {
    let w = Box::leak(Box::new(World::new()));
    w.add_builtin();
    let all = instances();
    let mut on = vec![];
    for i in 0..all.len() { if mask >> i & 1 == 1 && sx::pick(2) == 1 { on.push(i); } }
    let ann = (0..ANN.len()).filter(|i| anns >> i & 1 == 1).collect::<Vec<_>>();
    let ann = ann[sx::pick(ann.len())];
    let class = sx::pick(2 + third as usize);
    let arg = sx::pick(ARG.len());
    let mut s = String::from("(no-implicit-std)(import \"builtin\" I32 Number Number._)(data A a:)(data B b:)(data (Box T) (box: T))(class (C T) (function (c x) {(-> T A)}))(class (D T) (where (C T)) (function (d x) {(-> T A)}))");
    if third != 0 { s.push_str("(class (E T) (where (D T)) (function (e x) {(-> T A)}))"); }
    for i in &on { s.push_str(all[*i].text); }
    s.push_str("(function (f x) ");
    s.push_str(ANN[ann]);
    s.push_str(["(c ", "(d ", "(e "][class]);
    s.push_str(ARG[arg]);
    s.push_str("))");
    let m = M { all, on };
    // what f takes for x, and may assume
    let px = if ann == 1 { G::A } else { G::X };
    let assumed = match ann { 3 => Some((C, G::X)), 4 => Some((D, G::X)), 5 => Some((C, bx(G::X))), 6 => Some((D, bx(G::X))), 7 => Some((E, G::X)), 8 => Some((E, bx(G::X))), _ => None };
    let t = match arg { 0 => px, 1 => bx(px), 2 => bx(bx(px)), 3 => G::A, 4 => bx(G::A), 5 => G::B, _ => G::I };
    let overlap = m.on.iter().enumerate().any(|(k, i)| m.on[..k].iter().any(|j| m.all[*i].class == m.all[*j].class && meet(&m.all[*i].head, &m.all[*j].head)));
    // the superclass of D must hold wherever D does, and every instance's method must be allowed what it calls
    let own = |i: usize| -> bool {
        let inst = &m.all[i];
        let given = inst.cond.as_ref();
        (inst.class == C || m.solve(inst.class - 1, &inst.head, given, 0).is_some()) && match inst.name {
            "D.2" | "D.3" => m.solve(C, &inst.head, given, 0).is_some(),
            _ => true,
        }
    };
    // an unannotated function takes what it needs of its parameter's type as an assumption
    let quantified = ann == 0 && arg < 3;
    let how = if quantified { Some(How::Assumed(0)) } else { m.solve(class, &t, assumed.as_ref(), 0) };
    let fine = m.on.iter().all(|i| own(*i)) && how.is_some();
    match w.add("~/a", &s).map_err(|e| e.drop_context_info()) {
        Err(Error::OverlappingInstances(..)) => { sx::reach(1); sx::check(overlap, c"only instances with a common type overlap"); }
        Err(Error::NoMatchingInstances(..)) => { sx::reach(2); sx::check(!overlap && !fine, c"a constraint some instance satisfies is satisfied"); }
        Err(_) => sx::check(false, c"nothing else is wrong with these modules"),
        Ok(()) => {
            sx::reach(3);
            sx::check(!overlap, c"overlapping instances are refused");
            sx::check(fine, c"a constraint no instance satisfies is refused");
            let module = &w.modules[1];
            let it = module.inferred_types();
            let f = module.ast_root().functions.values().find(|f| module.symbol_map().get(f.id).unwrap().name == "f").unwrap();
            let scheme = it.scheme(f.id);
            sx::check(scheme.is_some(), c"a function has a type");
            let scheme = scheme.unwrap();
            let mut real = Real { w, m: &m, x: scheme.ty_params.first().map(|p| p.id), assumed: scheme.s_params.first().map(|c| c.id) };
            sx::check(scheme.ty_params.len() == (ann != 1) as usize, c"a function has the type parameters it needs");
            // what it assumes
            let needs = if quantified { Some((class, t.clone())) } else { assumed.clone() };
            sx::check(scheme.s_params.len() == needs.is_some() as usize, c"a function assumes what it needs and nothing more");
            if let (Some((k, g)), Some(c)) = (&needs, scheme.s_params.first()) {
                let ConstraintRep::Class(ref id, ref args) = c.rep;
                let name = match id { Use::Resolved(id, _) => module.symbol_map().get(*id).unwrap().name.as_str(), _ => "" };
                sx::check(name == ["C", "D", "E"][*k] && args.len() == 1 && real.ty(g, &args[0]), c"a function assumes what it needs of the type it needs it of");
            }
            match &f.body.rep {
                ExprRep::App(a) => {
                    let inst = it.instantiation(a.callee.id);
                    sx::check(inst.is_some(), c"a use of a method has an instantiation");
                    let inst = inst.unwrap();
                    sx::check(inst.s_args.len() == 1 && real.same(how.as_ref().unwrap(), &inst.s_args[0]), c"a constraint is satisfied by the one instance that fits");
                    sx::check(inst.ty_args.len() == 1 && real.ty(&t, &inst.ty_args[0]), c"a method is used at the type of its argument");
                }
                _ => sx::check(false, c"the term keeps its form"),
            }
            // how the superclasses of each instance are satisfied
            for i in &m.on {
                let id = real.instance(*i);
                let con = &module.ast_root().instance_cons[&id];
                real.x = con.ty_params.first().map(|p| p.id);
                real.assumed = con.s_params.first().map(|c| c.id);
                let want: Vec<How> = if m.all[*i].class > C { m.solve(m.all[*i].class - 1, &m.all[*i].head, m.all[*i].cond.as_ref(), 0).into_iter().collect() } else { vec![] };
                let got = it.instantiation(id);
                sx::check(got.is_some() && real.all(&want, got.unwrap()), c"a superclass is satisfied by the one instance that fits");
            }
        }
    }
}
