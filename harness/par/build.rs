//! Takes the parallel parts of the real code with `std::sync` and `rayon` replaced by the harness's.
fn main() {
    let m = std::fs::read_to_string("Cargo.toml").unwrap();
    let repo = m.split("path = \"").nth(1).unwrap().split('"').next().unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    for f in ["module/parallel.rs", "source/collector.rs", "lowering.rs"] {
        let p = format!("{}/src/{}", repo, f);
        println!("cargo:rerun-if-changed={}", p);
        let s = std::fs::read_to_string(&p).unwrap();
        // without its submodules, which the harness stands in for
        let sub = |l: &str| { let w: Vec<&str> = l.split_whitespace().collect(); matches!(w[..], ["mod", x] | ["pub", "mod", x] | ["pub(crate)", "mod", x] if x.ends_with(';')) };
        let s: String = s.lines().filter(|l| !l.trim_start().starts_with("//!") && !sub(l)).map(|l| format!("{}\n", l)).collect();
        let b = s.as_bytes();
        let (mut o, mut i) = (String::new(), 0);
        while i < s.len() {
            let start = i == 0 || { let c = b[i - 1] as char; !(c.is_alphanumeric() || c == '_' || c == ':') };
            let lead = s[i..].starts_with("::std::") && (i == 0 || { let c = b[i - 1] as char; !(c.is_alphanumeric() || c == '_' || c == '>') });
            if start && s[i..].starts_with("crate::") { o.push_str("crate::root::"); i += 7 }
            else if start && s[i..].starts_with("std::") { o.push_str("crate::std::"); i += 5 }
            else if lead { o.push_str("crate::std::"); i += 7 }
            else { let c = s[i..].chars().next().unwrap(); o.push(c); i += c.len_utf8() }
        }
        std::fs::write(format!("{}/{}", out, f.rsplit('/').next().unwrap()), format!("#[allow(unused_imports)] use crate::{{rayon, crossbeam_channel}};\n{}", o)).unwrap();
    }
    println!("cargo:rerun-if-changed=build.rs");
}
