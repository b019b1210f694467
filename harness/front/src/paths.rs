//! F04: module paths.
use crate::sx;
use llrl::path::*;
use std::str::FromStr;

/// The grammar: parts separated by '/', none of them empty, "~", "." or ".."; the first one may be "~".
fn model(t: &[u8]) -> Option<(Option<Vec<u8>>, Vec<Vec<u8>>)> {
    let mut parts: Vec<Vec<u8>> = vec![vec![]];
    for b in t { if *b == b'/' { parts.push(vec![]) } else { parts.last_mut().unwrap().push(*b) } }
    let mut it = parts.into_iter();
    let head = it.next().unwrap();
    let rest: Vec<Vec<u8>> = it.collect();
    let bad = |p: &[u8]| p.is_empty() || p == b"~" || p == b"." || p == b"..";
    let pkg = if head == b"~" { None } else if bad(&head) { return None } else { Some(head) };
    for p in &rest { if bad(p) { return None } }
    if rest.len() == 1 && rest[0] == b"prelude" { return Some((pkg, vec![])) }
    Some((pkg, rest))
}
fn run(s: String) {
    let want = model(s.as_bytes());
    match Path::from_str(&s) {
        Err(_) => { sx::check(want.is_none(), c"a well-formed path is accepted"); sx::reach(2); }
        Ok(p) => {
            sx::check(want.is_some(), c"an ill-formed path is refused");
            if let Some((pkg, parts)) = want {
                sx::check(p.package.external_name().map(|x| x.as_bytes()) == pkg.as_deref(), c"the package is the first part");
                sx::check(p.package.is_current() == pkg.is_none(), c"~ is the current package");
                let got = p.module.raw_parts();
                sx::check(got.len() == parts.len(), c"number of parts");
                for (a, b) in got.iter().zip(&parts) { sx::check(a.as_bytes() == &b[..], c"the parts of the module name"); }
                sx::check(p.module.is_prelude() == parts.is_empty(), c"prelude");
            }
            let t = p.to_string();
            match Path::from_str(&t) {
                Ok(q) => sx::check(p == q, c"the text of a path reads back as the path"),
                Err(_) => sx::check(false, c"the text of a path is accepted"),
            }
            sx::reach(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_path(n: u64) { run(crate::lexing::text(n as usize)) }
/// package, then a module name that is 'prelude' with up to two characters changed or added
#[no_mangle]
pub extern "C" fn h_path_prelude(k: u64) {
    let mut b = b"p/prelude".to_vec();
    if k & 1 != 0 { let i = sx::choose(b.len()); b[i] = sx::u8(); }
    if k & 2 != 0 { b.push(b'/'); b.push(sx::u8()); }
    if k & 4 != 0 { b.insert(2, sx::u8()); }
    for x in &b { sx::assume(*x < 128); }
    run(unsafe { String::from_utf8_unchecked(b) })
}
