//! F05: the preprocessor against an evaluator of its directives.
use crate::sx;
use llrl::preprocess::Preprocessor;
use llrl::sexp::*;
use llrl::source_loc::*;

#[derive(Clone, PartialEq)]
enum M { Sym(String), Str(&'static str), Bool(bool), List(Vec<M>), Dot(Vec<M>, Box<M>) }
type Env = Vec<(String, M)>;

fn sym(s: &str) -> M { M::Sym(s.to_string()) }
fn cons(a: M, b: M) -> M {
    match b { M::List(mut l) => { l.insert(0, a); M::List(l) } M::Dot(mut l, e) => { l.insert(0, a); M::Dot(l, e) } b => M::Dot(vec![a], Box::new(b)) }
}
fn seq(ms: &[M], e: &Env, on: &[bool; 2]) -> Option<Vec<M>> { let mut r = vec![]; for m in ms { r.extend(eval(m, e, on)?) } Some(r) }
fn one(m: &M, e: &Env, on: &[bool; 2]) -> Option<M> { let mut v = eval(m, e, on)?; if v.len() == 1 { v.pop() } else { None } }
fn name(m: &M) -> Option<String> { match m { M::Sym(s) if s.starts_with('$') || s == "_" => Some(s.clone()), _ => None } }
fn eval(m: &M, e: &Env, on: &[bool; 2]) -> Option<Vec<M>> {
    match m {
        M::Sym(s) if s.starts_with('$') => e.iter().rev().find(|x| x.0 == *s).map(|x| vec![x.1.clone()]),
        M::List(l) => {
            let d = match l.first() { Some(M::Sym(s)) => s.as_str(), _ => "" };
            let a = if l.is_empty() { &[] } else { &l[1..] };
            match d {
                "$symbol" => {
                    let mut n = String::new();
                    for p in seq(a, e, on)? { match p { M::Sym(s) => n.push_str(&s), M::Str(s) => n.push_str(s), _ => return None } }
                    if n.is_empty() { None } else { Some(vec![M::Sym(n)]) }
                }
                "$let" => {
                    let M::List(bs) = a.first()? else { return None };
                    let mut f = e.clone();
                    for b in bs { match b { M::List(p) if p.len() == 2 => { let n = name(&p[0])?; let v = one(&p[1], e, on)?; if n != "_" { f.push((n, v)) } } _ => return None } }
                    seq(&a[1..], &f, on)
                }
                "$let1" => {
                    let n = name(a.first()?)?;
                    let v = one(a.get(1)?, e, on)?;
                    let mut f = e.clone(); if n != "_" { f.push((n, v)) }
                    seq(&a[2..], &f, on)
                }
                "$for" => {
                    let M::List(ns) = a.first()? else { return None };
                    let M::List(rows) = one(a.get(1)?, e, on)? else { return None };
                    let ns: Option<Vec<String>> = ns.iter().map(name).collect(); let ns = ns?;
                    for r in &rows { match r { M::List(r) if r.len() == ns.len() => {} _ => return None } }
                    let mut out = vec![];
                    for r in rows { if let M::List(r) = r {
                        let mut f = e.clone();
                        for (n, v) in ns.iter().zip(r) { if n != "_" { f.push((n.clone(), v)) } }
                        out.extend(seq(&a[2..], &f, on)?);
                    } }
                    Some(out)
                }
                "$for1" => {
                    let n = name(a.first()?)?;
                    let M::List(vs) = one(a.get(1)?, e, on)? else { return None };
                    let mut out = vec![];
                    for v in vs { let mut f = e.clone(); if n != "_" { f.push((n.clone(), v)) } out.extend(seq(&a[2..], &f, on)?); }
                    Some(out)
                }
                "$when" => { let M::Bool(c) = one(a.first()?, e, on)? else { return None }; if c { seq(&a[1..], e, on) } else { Some(vec![]) } }
                "$not" => { if a.len() != 1 { return None } let M::Bool(c) = one(&a[0], e, on)? else { return None }; Some(vec![M::Bool(!c)]) }
                "$feature" => { if a.len() != 1 { return None } let M::Str(s) = one(&a[0], e, on)? else { return None }; Some(vec![M::Bool(if s == "f" { on[0] } else { on[1] && s == "g" })]) }
                _ => Some(vec![M::List(seq(l, e, on)?)]),
            }
        }
        M::Dot(l, t) => {
            let l = seq(l, e, on)?;
            let t = one(t, e, on)?;
            Some(vec![l.into_iter().rev().fold(t, |t, x| cons(x, t))])
        }
        m => Some(vec![m.clone()]),
    }
}
const NAMES: [&str; 3] = ["$a", "$b", "_"];
/// a form whose leaves are those of the bit set `lv` and whose inner nodes are those of `nv`
fn form(depth: u64, lv: u64, nv: u64) -> M {
    let nv = if depth == 0 { 0 } else { nv };
    let all = lv.count_ones() + nv.count_ones();
    let mut c = sx::pick(all as usize);
    let mut kind = 0;
    for b in 0..64 { let on = if b < 16 { lv >> b & 1 } else { nv >> (b - 16) & 1 }; if on == 1 { if c == 0 { kind = b; break } c -= 1 } }
    let d = depth.wrapping_sub(1);
    let g = || form(d, lv, nv);
    let nm = || sym(NAMES[sx::pick(3)]);
    match kind {
        0 => sym("x"), 1 => sym("$a"), 2 => sym("$b"), 3 => M::Bool(sx::int(1) == 1), 4 => M::Str("f"), 5 => M::Str("g"), 6 => M::List(vec![]),
        16 => M::List(vec![g(), g()]),
        17 => cons(g(), g()),
        18 => M::List(vec![sym("$not"), g()]),
        19 => M::List(vec![sym("$feature"), g()]),
        20 => M::List(vec![sym("$when"), g(), g()]),
        21 => M::List(vec![sym("$let1"), nm(), g(), g()]),
        22 => M::List(vec![sym("$let"), M::List(vec![M::List(vec![nm(), g()]), M::List(vec![nm(), g()])]), g()]),
        23 => M::List(vec![sym("$for1"), nm(), M::List(vec![g(), g()]), g()]),
        24 => M::List(vec![sym("$for"), M::List((0..1 + sx::pick(2)).map(|_| nm()).collect()), M::List(vec![M::List({ let n = sx::pick(4); (0..n).map(|i| if i == 0 { g() } else { sym("y") }).collect() })]), g()]),
        25 => M::List(vec![sym("$symbol"), g(), g()]),
        26 => M::List(vec![sym("$for"), M::List(vec![nm()]), M::List(vec![M::List(vec![g()]), M::List(vec![g()])]), g()]),
        27 => M::List(vec![sym("$for1"), nm(), g(), g()]),
        _ => M::List(vec![sym(["$not", "$feature", "$when", "$let1", "$let", "$for1", "$for", "$symbol"][sx::pick(8)]), g()]),
    }
}
fn build(l: SourceLocation, m: &M) -> Sexp {
    match m {
        M::Sym(s) => Sexp::symbol(l, s.clone()), M::Str(s) => Sexp::string(l, *s), M::Bool(b) => Sexp::bool(l, *b),
        M::List(v) => Sexp::list(l, v.iter().map(|x| build(l, x)).collect()),
        M::Dot(v, t) => { let mut v: Vec<Sexp> = v.iter().map(|x| build(l, x)).collect(); let h = v.remove(0); Sexp::list_like(l, h, v, build(l, t)) }
    }
}
fn same(a: &Sexp, b: &M) -> bool {
    match (&a.rep, b) {
        (SexpRep::Symbol(x), M::Sym(y)) => x == y, (SexpRep::String(x), M::Str(y)) => x == y, (SexpRep::Bool(x), M::Bool(y)) => x == y,
        (SexpRep::List(x), M::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (SexpRep::ListLike(x), M::Dot(y, t)) => x.1.len() + 1 == y.len() && same(&x.0, &y[0]) && x.1.iter().zip(&y[1..]).all(|(x, y)| same(x, y)) && same(&x.2, t),
        _ => false,
    }
}
/// n forms in a row (the first one of that depth, then leaves); within a scope that has $a and $b, if wanted
#[no_mangle]
pub extern "C" fn h_pp(n: u64, depth: u64, lv: u64, nv: u64, bound: u64) {
    let on = [sx::int(1) == 1, sx::int(1) == 1];
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&llrl::path::Path::current());
    let l = locator.issue(LocationRange::empty(Location::new()));
    let mut ms: Vec<M> = vec![];
    for i in 0..n { ms.push(form(if i == 0 { depth } else { 0 }, lv, nv)) }
    if bound != 0 {
        let mut l = vec![sym("$let"), M::List(vec![M::List(vec![sym("$a"), M::List(vec![sym("y"), sym("z")])]), M::List(vec![sym("$b"), M::Bool(true)])])];
        l.append(&mut ms);
        ms.push(M::List(l));
    }
    let mut ss = Ss { loc: l, ss: ms.iter().map(|m| build(l, m)).collect() };
    let mut pp = Preprocessor::new();
    if on[0] { pp.enable_feature("f") }
    if on[1] { pp.enable_feature("g") }
    let got = pp.run(&mut ss);
    match (got, seq(&ms, &vec![], &on)) {
        (Ok(()), Some(w)) => {
            sx::check(ss.ss.len() == w.len(), c"number of forms");
            for (a, b) in ss.ss.iter().zip(&w) { sx::check(same(a, b), c"a directive is replaced by what it stands for, everything else stays") }
            sx::reach(1);
        }
        (Err(_), None) => sx::reach(2),
        (Ok(()), None) => sx::check(false, c"an ill-formed directive or undefined variable is an error"),
        (Err(_), Some(_)) => sx::check(false, c"a well-formed directive is no error"),
    }
}
