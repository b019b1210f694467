//! S07: exhaustiveness and usefulness against the values patterns match.
use crate::sx;
use llrl::ast::{self, ModuleId, NodeId};
use llrl::pattern_matching::*;
use std::rc::Rc;

/// A type: its constructors with their field types (indices of types), or the integers.
struct Ty { cons: Vec<Vec<usize>>, tags: Rc<[FiniteCon]>, int: bool }
fn ty(i: usize, cons: Vec<Vec<usize>>) -> Ty {
    let tags: Vec<FiniteCon> = cons.iter().enumerate().map(|(k, f)| FiniteCon::new(ast::ValueCon::Data(NodeId::new_unchecked(ModuleId::from_index(1), (i * 10 + k) as u32)), f.len())).collect();
    Ty { cons, tags: tags.into(), int: false }
}
#[derive(Clone, PartialEq)]
enum P { W, C(usize, Vec<P>), I(u64) }
#[derive(Clone, PartialEq)]
enum V { C(usize, Vec<V>), I(u64), Other }

fn pat(ts: &[Ty], t: usize, depth: usize, ints: &[u64]) -> P {
    if ts[t].int { let c = sx::choose(ints.len() + 1); return if c == 0 { P::W } else { P::I(ints[c - 1]) } }
    if depth == 0 { return P::W }
    let c = sx::choose(ts[t].cons.len() + 1);
    if c == 0 { return P::W }
    P::C(c - 1, ts[t].cons[c - 1].iter().map(|f| pat(ts, *f, depth - 1, ints)).collect())
}
fn build(ts: &[Ty], t: usize, p: &P) -> Pattern {
    match p {
        P::W => Pattern::Wildcard,
        P::I(v) => Pattern::Constructor(Tag::Const(ast::Const::Integer(false, *v)), vec![]),
        P::C(k, a) => Pattern::Constructor(Tag::Finite(ts[t].tags[*k], ts[t].tags.clone()), a.iter().zip(&ts[t].cons[*k]).map(|(p, f)| build(ts, *f, p)).collect()),
    }
}
/// all values of a type that patterns of that depth can tell apart
fn values(ts: &[Ty], t: usize, depth: usize, ints: &[u64]) -> Vec<V> {
    if ts[t].int { let mut r: Vec<V> = ints.iter().map(|i| V::I(*i)).collect(); r.push(V::Other); return r }
    if depth == 0 { return vec![V::Other] }
    let mut out = vec![];
    for (k, fs) in ts[t].cons.iter().enumerate() {
        let mut acc: Vec<Vec<V>> = vec![vec![]];
        for f in fs {
            let vs = values(ts, *f, depth - 1, ints);
            acc = acc.into_iter().flat_map(|a| vs.iter().map(move |v| { let mut a = a.clone(); a.push(v.clone()); a }).collect::<Vec<_>>()).collect();
        }
        for a in acc { out.push(V::C(k, a)) }
    }
    out
}
fn matches(p: &P, v: &V) -> bool {
    match (p, v) { (P::W, _) => true, (P::I(a), V::I(b)) => a == b, (P::C(k, a), V::C(l, b)) => k == l && a.iter().zip(b).all(|(p, v)| matches(p, v)), _ => false }
}
fn matches_real(ts: &[Ty], t: usize, p: &Pattern, v: &V) -> bool {
    match (p, v) {
        (Pattern::Wildcard, _) => true,
        (Pattern::Constructor(Tag::Finite(c, _), a), V::C(l, b)) => *c == ts[t].tags[*l] && a.len() == b.len() && a.iter().zip(b).zip(&ts[t].cons[*l]).all(|((p, v), f)| matches_real(ts, *f, p, v)),
        _ => false,
    }
}
/// mode: which types; rows; arbitrary row count up to `rows` when `upto`
#[no_mangle]
pub extern "C" fn h_pats(mode: u64, rows: u64, depth: u64) {
    let depth = depth as usize;
    let mut ts = vec![];
    // 0: two constants; 1: none, one field, two fields; 2: naturals; 3: integers; 4: one constructor with two fields
    ts.push(ty(0, vec![vec![], vec![]]));
    ts.push(ty(1, vec![vec![], vec![0], vec![0, 0]]));
    ts.push(ty(2, vec![vec![], vec![2]]));
    let mut it = ty(3, vec![]); it.int = true; ts.push(it);
    ts.push(ty(4, vec![vec![0, 0]]));
    ts.push(ty(5, vec![vec![], vec![0]]));
    let cols: Vec<usize> = match mode { 0 => vec![1], 1 => vec![5, 0], 2 => vec![2], 3 => vec![3, 0], 4 => vec![0, 0, 0], 5 => vec![4, 0], _ => vec![2, 2] };
    let ints: Vec<u64> = if mode == 3 { vec![0, u64::MAX] } else { vec![] };
    let mut ps: Vec<Vec<P>> = vec![];
    for _ in 0..rows { ps.push(cols.iter().map(|t| pat(&ts, *t, depth, &ints)).collect()) }
    let built: Vec<Row> = ps.iter().map(|r| Row::new(r.iter().zip(&cols).map(|(p, t)| build(&ts, *t, p)).collect())).collect();
    let mut vals: Vec<Vec<V>> = vec![vec![]];
    for t in &cols {
        let vs = values(&ts, *t, depth + 1, &ints);
        vals = vals.into_iter().flat_map(|a| vs.iter().map(move |v| { let mut a = a.clone(); a.push(v.clone()); a }).collect::<Vec<_>>()).collect();
    }
    // the first row no value needs
    let mut seen = vec![false; vals.len()];
    let mut useless = None;
    for (i, r) in ps.iter().enumerate() {
        let mut any = false;
        for (k, v) in vals.iter().enumerate() {
            if r.iter().zip(v).all(|(p, v)| matches(p, v)) { if !seen[k] { any = true; seen[k] = true } }
        }
        if !any { useless = Some(i); break }
    }
    match check(built.clone()) {
        Err(Error::Useless(r)) => {
            sx::check(useless.map(|i| built[i] == r) == Some(true), c"a row is reported useless exactly when it is the first that matches nothing new");
            sx::reach(1);
        }
        Err(Error::NonExhaustive(m)) => {
            sx::check(useless.is_none(), c"no useless row is overlooked");
            let left: Vec<bool> = vals.iter().map(|v| m.rows().any(|r| r.iter().zip(v).zip(&cols).all(|((p, v), t)| matches_real(&ts, *t, p, v)))).collect();
            sx::check(seen.iter().any(|s| !s), c"an exhaustive match is not refused");
            for k in 0..vals.len() {
                if seen[k] && mode != 3 { sx::check(!left[k], c"only values that are not matched are reported") }
            }
            sx::check((0..vals.len()).any(|k| left[k] && !seen[k]), c"a value that is not matched is reported");
            sx::reach(2);
        }
        Ok(()) => {
            sx::check(useless.is_none(), c"no useless row is overlooked");
            sx::check(seen.iter().all(|s| *s), c"a match that is accepted covers every value");
            sx::reach(3);
        }
    }
}
