//! What a module sees of other modules: imports, exports, patterns, renamings, conflicts.
use crate::{sx, World};
use llrl::module::{Error, ModuleId};
use std::collections::HashMap;

/// A construct: the module that defines it and its name there.
type Def = (usize, &'static str);
type Env = HashMap<String, Def>;
#[derive(PartialEq, Clone, Copy)]
enum Bad { Unresolved, Many, Conflict, Port }

/// (new name, target)
type Port = (Option<&'static str>, &'static str);

/// the names a port gives, and to what: what the language says, worked out on its own
fn gives(from: &Env, (new, target): Port) -> Result<Vec<(String, Def)>, Bad> {
    if !(target.starts_with('_') || target.ends_with('_')) {
        return match from.get(target) { Some(d) => Ok(vec![(new.unwrap_or(target).to_string(), *d)]), None => Err(Bad::Unresolved) };
    }
    let new = new.unwrap_or(target);
    if !(new.starts_with('_') || new.ends_with('_')) { return Err(Bad::Port); }
    let (tb, nb) = (target.as_bytes(), new.as_bytes());
    let mut r = vec![];
    for (name, d) in from {
        let b = name.as_bytes();
        // the stem of the name under the pattern
        let (lo, hi) = if tb[0] == b'_' { (0, b.len() as i64 - (tb.len() as i64 - 1)) } else { (tb.len() - 1, b.len() as i64) };
        if tb.len() > 1 && hi <= lo as i64 { continue; }
        let hi = hi as usize;
        let fixed_ok = if tb[0] == b'_' { b[hi..] == tb[1..] } else { b[..lo] == tb[..lo] };
        if !fixed_ok { continue; }
        let stem = &name[lo..hi];
        let n = if nb[0] == b'_' { format!("{}{}", stem, &new[1..]) } else { format!("{}{}", &new[..new.len() - 1], stem) };
        r.push((n, *d));
    }
    Ok(r)
}
fn put(to: &mut Env, l: Vec<(String, Def)>, bad: Bad) -> Result<(), Bad> {
    for (n, d) in l {
        if let Some(o) = to.insert(n, d) { if o != d { return Err(bad); } }
    }
    Ok(())
}
fn module(idx: usize, known: &[Env], imports: &[(usize, Vec<Port>)], defs: &[&'static str], exports: &[Port]) -> Result<Env, Bad> {
    let mut top = Env::new();
    for (m, ports) in imports { for p in ports { put(&mut top, gives(&known[*m], *p)?, Bad::Many)?; } }
    put(&mut top, defs.iter().map(|d| (d.to_string(), (idx, *d))).collect(), Bad::Many)?;
    let mut out = Env::new();
    for p in exports { put(&mut out, gives(&top, *p)?, Bad::Conflict)?; }
    Ok(out)
}
fn text(imports: &[(usize, Vec<Port>)], defs: &[&'static str], exports: &[Port]) -> String {
    let mut s = String::from("(no-implicit-std)");
    let ports = |s: &mut String, l: &[Port]| for (n, t) in l {
        match n { None => { s.push(' '); s.push_str(t) } Some(n) => { s.push_str(" ["); s.push_str(n); s.push(' '); s.push_str(t); s.push(']') } }
    };
    for (m, l) in imports { s.push_str(["(import \"~/a\"", "(import \"~/b\""][*m]); ports(&mut s, l); s.push(')'); }
    // a constructor for each name
    for d in defs { s.push_str("(data "); s.push_str(&d.to_uppercase()); s.push_str(" "); s.push_str(d); s.push(')'); }
    if !exports.is_empty() { s.push_str("(export"); ports(&mut s, exports); s.push(')'); }
    s
}
fn kind(e: Error) -> Option<Bad> {
    match e.drop_context_info() {
        Error::Unresolved(..) => Some(Bad::Unresolved),
        Error::MultipleDeclarations(..) => Some(Bad::Many),
        Error::ConflictingExports(..) => Some(Bad::Conflict),
        Error::WildcardPortNameMustBeWildcard(..) => Some(Bad::Port),
        _ => None,
    }
}
/// builds a module and compares what it exports; whether it was built
fn step(w: &mut World, known: &mut Vec<Env>, imports: &[(usize, Vec<Port>)], defs: &[&'static str], exports: &[Port]) -> bool {
    let idx = known.len();
    // the types' names
    let mut all = defs.to_vec();
    for d in defs { all.push(match *d { "a" => "A", "ab" => "AB", "b" => "B", "ba" => "BA", _ => "C" }); }
    let want = module(idx, known, imports, &all, exports);
    let got = w.add(["~/a", "~/b", "~/c"][idx], &text(imports, defs, exports));
    match (want, got) {
        (Ok(want), Ok(())) => {
            sx::reach(1);
            let m = &w.modules[idx + 1];
            let mut n = 0;
            for (name, c) in m.exports().iter() {
                n += 1;
                let (om, on) = w.origin(c.construct);
                match want.get(name) {
                    Some(d) => sx::check(d.0 + 1 == om && d.1 == on, c"an exported name stands for what it was declared to stand for"),
                    None => sx::check(false, c"only what is exported can be seen"),
                }
            }
            sx::check(n == want.len(), c"everything that is exported can be seen");
            known.push(want);
            true
        }
        (Err(b), Err(e)) => { sx::reach(2 + b as u64); sx::check(kind(e) == Some(b), c"the error names what is wrong"); false }
        (Ok(_), Err(_)) => { sx::check(false, c"a module whose names all resolve to one thing each is accepted"); false }
        (Err(_), Ok(())) => { sx::check(false, c"a name that resolves to nothing, or to two things, is refused"); false }
    }
}
const PORTS: [Port; 18] = [
    (None, "a"), (None, "ab"), (None, "c"), (Some("c"), "a"), (Some("a"), "ab"), (Some("ab"), "ba"),
    (None, "_"), (None, "a_"), (None, "_b"), (Some("_"), "a_"), (Some("_"), "_a"), (Some("a_"), "_"), (Some("_b"), "_"),
    (Some("b_"), "_a"), (Some("c"), "a_"), (Some("_a"), "a_"), (None, "ab_"), (None, "_A"),
];
const FEW: [Port; 7] = [(None, "a"), (Some("a"), "ab"), (None, "_"), (None, "a_"), (Some("_"), "_a"), (Some("b_"), "_a"), (Some("_b"), "_")];
fn port(few: bool) -> Port { if few { FEW[sx::pick(FEW.len())] } else { PORTS[sx::pick(PORTS.len())] } }
fn some_ports(n: u64, few: bool) -> Vec<Port> { (0..n).map(|_| port(few)).collect() }

/// a exports e names; b imports i of them, may define one of its own, and exports; c imports from both
#[no_mangle]
pub extern "C" fn h_ports(e: u64, i: u64, shape: u64) {
    let w = Box::leak(Box::new(World::new()));
    w.add_builtin();
    let mut known = vec![];
    let few = shape & 8 != 0;
    let own: &[&str] = if shape & 1 == 0 { &["a", "ab", "ba"] } else { &["a", "b"] };
    if !step(w, &mut known, &[], own, &some_ports(e, few)) { return; }
    let def: &[&str] = [&["a"][..], &[], &["b"], &["c", "ab"]][sx::pick(if few { 2 } else { 4 })];
    let out: Vec<Port> = if shape & 2 == 0 { vec![(None, "_")] } else { vec![port(few)] };
    let from_a = some_ports(i, few);
    if !step(w, &mut known, &[(0, from_a)], def, &out) { return; }
    if shape & 4 == 0 { return; }
    let (p, q) = (port(few), port(few));
    let first = sx::pick(2);
    step(w, &mut known, &[(first, vec![p]), (1 - first, vec![q])], &[], &[(None, "_")]);
}
