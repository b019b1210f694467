mod sx;
mod lexing;
mod topo;
mod paths;
mod strs;
mod unify;
mod pats;
mod parse;
mod layout;
mod native;
mod pp;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i + 2).map(|x| x.parse().unwrap()).unwrap_or(0u64);
    match a[1].as_str() {
        "h_lex_tile" => lexing::h_lex_tile(g(0), g(1), g(2)),
        "h_topo" => topo::h_topo(g(0), g(1)),
        "h_path" => paths::h_path(g(0)),
        "h_path_prelude" => paths::h_path_prelude(g(0)),
        "h_escape" => strs::h_escape(g(0)),
        "h_char" => strs::h_char(),
        "h_unescape" => strs::h_unescape(g(0)),
        "h_num" => strs::h_num(g(0)),
        "h_num_edge" => strs::h_num_edge(g(0), g(1)),
        "h_int_print" => strs::h_int_print(g(0), g(1)),
        "h_unify" => unify::h_unify(g(0), g(1), g(2)),
        "h_kind" => unify::h_kind(g(0), g(1)),
        "h_match" => unify::h_match(g(0), g(1)),
        "h_subst" => unify::h_subst(g(0), g(1)),
        "h_pats" => pats::h_pats(g(0), g(1), g(2)),
        "h_parse" => parse::h_parse(g(0), g(1)),
        "h_print" => parse::h_print(g(0), g(1)),
        "h_pp" => pp::h_pp(g(0), g(1), g(2), g(3), g(4)),
        "h_native" => native::h_native(g(0), g(1), g(2), g(3)),
        "h_layout" => layout::h_layout(g(0), g(1)),
        x => { eprintln!("unknown entry {}", x); std::process::exit(97); }
    }
}
