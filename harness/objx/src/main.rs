mod sx;
mod labels;
mod link;
mod elf;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i + 2).map(|x| x.parse().unwrap()).unwrap_or(0u64);
    match a[1].as_str() {
        "h_labels" => labels::h_labels(g(0), g(1)),
        "h_align" => labels::h_align(),
        "h_link" => link::h_link(g(0), g(1)),
        "h_elf" => elf::h_elf(g(0), g(1)),
        "h_insts" => labels::h_insts(g(0), g(1)),
        x => { eprintln!("unknown entry {}", x); std::process::exit(97); }
    }
}
