//! The object file (xten0/src/elf): what it denotes, by the ELF64 specification and the x86-64 psABI, is the object.
use crate::sx::*;
use xten::asm::*;
use xten::elf::adapter::into_relocatable_object;

const SECTIONS: [LocationSection; 4] = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
const TYPES: [RelocType; 4] = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64];
const R_TYPES: [u64; 4] = [15, 2, 9, 1]; // R_X86_64_PC8, PC32, GOTPCREL, 64

struct File(Vec<u8>);
impl File {
    fn n(&self, at: u64, n: u64) -> u64 {
        check(at + n <= self.0.len() as u64, c"the file is as long as it says");
        let mut x = 0;
        for i in (0..n).rev() { x = x << 8 | self.0[(at + i) as usize] as u64; }
        x
    }
    fn name(&self, at: u64) -> &[u8] {
        let mut e = at as usize;
        while self.0[e] != 0 { e += 1; }
        &self.0[at as usize..e]
    }
}
#[derive(Clone, Copy)]
struct Sh { name: u64, ty: u64, flags: u64, off: u64, size: u64, link: u64, info: u64, align: u64, entsize: u64 }
const NAMES: [&str; 6] = ["main", "ma", "", "$x y", "main.1", ".text"];

/// `n` symbols in an order and with bindings of any kind, one relocation per section at most
#[no_mangle]
pub extern "C" fn h_elf(n: u64, k0: u64) {
    let texts: usize = [0, 1, 9][pick(3)];
    let sizes = [texts, 3 * (texts & 1), 2];
    let mut o = Object { text: bytes(sizes[0]), data: bytes(sizes[1]), rodata: bytes(sizes[2]), bss: int(64), symbols: vec![], relocs: vec![] };
    let mut names: Vec<usize> = vec![];
    for i in 0..n as usize {
        let at = Location::new(SECTIONS[pick(4)], int(64));
        let kind = if i == 0 { k0 as usize } else { pick(3) };
        let name = NAMES[(i * 2 + if i == 0 { pick(2) } else { 1 }) % 6];
        let b = match kind { 0 => Binding::Local(at), 1 => Binding::Global(Some(at)), _ => Binding::Global(None) };
        names.push(0);
        if o.symbols.iter().any(|s| s.name == name) { assume(false); }
        o.symbols.push(Symbol::new(name.to_string(), b));
    }
    for s in 0..3 {
        if s == 1 && pick(2) == 0 { break; }
        let k = if s == 0 { pick(4 + n as usize) } else { (s + 4 - 1) % (4 + n as usize) };
        let t = if k < 4 { RelocTarget::Section(SECTIONS[k]) } else { RelocTarget::Symbol(o.symbols[k - 4].name.clone()) };
        o.relocs.push(Reloc::new(Location::new(SECTIONS[s], int(64)), t, int(64) as i64, TYPES[if s == 0 { (k + pick(2)) % 4 } else { s + 1 }]));
    }
    let mut v = vec![];
    into_relocatable_object("f.o", o.clone()).write(&mut v).unwrap();
    let f = File(v);
    // the header: 64 bits, little endian, System V, relocatable, x86-64
    check(f.n(0, 8) == 0x00_01_01_02_46_4c_45_7f, c"identification");
    check(f.n(8, 8) == 0 && f.n(16, 2) == 1 && f.n(18, 2) == 62 && f.n(20, 4) == 1, c"a relocatable file for x86-64");
    check(f.n(24, 8) == 0 && f.n(32, 8) == 0 && f.n(48, 4) == 0 && f.n(52, 2) == 64 && f.n(56, 2) == 0, c"no entry point, no segments");
    let (shoff, shentsize, shnum, shstrndx) = (f.n(40, 8), f.n(58, 2), f.n(60, 2), f.n(62, 2));
    check(shentsize == 64 && shnum > 0 && shstrndx < shnum && shoff % 8 == 0, c"section headers");
    let mut sh = vec![];
    for i in 0..shnum {
        let b = shoff + i * 64;
        sh.push(Sh { name: f.n(b, 4), ty: f.n(b + 4, 4), flags: f.n(b + 8, 8), off: f.n(b + 24, 8), size: f.n(b + 32, 8), link: f.n(b + 40, 4), info: f.n(b + 44, 4), align: f.n(b + 48, 8), entsize: f.n(b + 56, 8) });
        check(f.n(b + 16, 8) == 0, c"no section has an address");
    }
    check(sh[0].ty == 0 && sh[0].size == 0 && sh[0].off <= f.0.len() as u64 && sh[0].link == 0 && sh[0].info == 0, c"the null section");
    let find = |name: &str| -> usize {
        let c: Vec<usize> = (1..sh.len()).filter(|&i| f.name(sh[shstrndx as usize].off + sh[i].name) == name.as_bytes()).collect();
        check(c.len() == 1, c"each section is there once");
        c[0]
    };
    check(sh[shstrndx as usize].ty == 3, c"names of sections are a string table");
    let ix = [find(".text"), find(".data"), find(".rodata"), find(".bss")];
    let flags = [6u64, 3, 2, 3];
    for s in 0..4 {
        let h = sh[ix[s]];
        check(h.ty == if s == 3 { 8 } else { 1 } && h.flags == flags[s] && h.align == 16, c"kind and flags of a section");
        if s == 3 { check(h.size == o.bss, c"size of bss"); continue; }
        let b = [&o.text, &o.data, &o.rodata][s];
        check(h.size == b.len() as u64, c"size of a section");
        let mut same = true;
        for i in 0..b.len() { same &= f.n(h.off + i as u64, 1) == b[i] as u64; }
        check(same, c"content of a section");
    }
    // symbols
    let st = find(".symtab");
    check(sh[st].ty == 2 && sh[st].entsize == 24 && sh[st].size % 24 == 0 && sh[st].align == 8, c"the symbol table");
    let strs = sh[sh[st].link as usize];
    check(strs.ty == 3, c"names of symbols are a string table");
    let count = sh[st].size / 24;
    check(sh[st].info <= count, c"the first symbol that is not local");
    let mut seen = vec![0u32; o.symbols.len()];
    let mut sections = vec![];
    let mut file = 0;
    // what a symbol of the table is: Ok(symbol of the object), Err(section)
    let mut what: Vec<Option<Result<usize, usize>>> = vec![];
    for i in 0..count {
        let b = sh[st].off + i * 24;
        let (name, info, other, shndx, value) = (f.n(b, 4), f.n(b + 4, 1), f.n(b + 5, 1), f.n(b + 6, 2), f.n(b + 8, 8));
        check((info >> 4 == 0) == (i < sh[st].info), c"local symbols come first");
        check(info >> 4 < 2 && other == 0, c"symbols are local or global, and visible");
        if i == 0 { check(f.n(b, 8) == 0 && value == 0, c"the null symbol"); what.push(None); continue; }
        check(name < strs.size, c"the name is in the string table");
        let name = f.name(strs.off + name);
        match info & 15 {
            4 => { check(shndx == 0xfff1 && info >> 4 == 0 && name == b"f.o", c"the symbol of the file"); file += 1; what.push(None); }
            3 => {
                check(value == 0 && info >> 4 == 0, c"the symbol of a section");
                sections.push(shndx);
                what.push(Some(Err(shndx as usize)));
            }
            0 => {
                let k = (0..o.symbols.len()).find(|&k| o.symbols[k].name.as_bytes() == name);
                check(k.is_some(), c"no symbol but the object's");
                let k = k.unwrap();
                seen[k] += 1;
                let (g, at) = match o.symbols[k].binding { Binding::Local(l) => (0, Some(l)), Binding::Global(l) => (1, l) };
                check(info >> 4 == g, c"local and global are kept");
                match at {
                    None => { check(shndx == 0, c"a symbol from elsewhere is undefined"); reach(31) }
                    Some(l) => {
                        let s = SECTIONS.iter().position(|s| *s == l.section).unwrap();
                        check(shndx == ix[s] as u64 && value == l.pos, c"a symbol is where it was defined");
                        reach(32);
                    }
                }
                what.push(Some(Ok(k)));
            }
            _ => check(false, c"no other type of symbol"),
        }
    }
    check(file == 1 && seen.iter().all(|x| *x == 1), c"each symbol is there once");
    // relocations
    let mut left: Vec<bool> = o.relocs.iter().map(|_| true).collect();
    for i in 1..sh.len() {
        if sh[i].ty != 4 { check(sh[i].ty != 9, c"addends are explicit"); continue; }
        check(sh[i].entsize == 24 && sh[i].size % 24 == 0 && sh[i].link == st as u64, c"a relocation section");
        let s = ix.iter().position(|x| *x as u64 == sh[i].info);
        check(s.is_some(), c"relocations are of a section");
        let s = s.unwrap();
        for j in 0..sh[i].size / 24 {
            let b = sh[i].off + j * 24;
            let (offset, ty, sym, addend) = (f.n(b, 8), f.n(b + 8, 4), f.n(b + 12, 4), f.n(b + 16, 8));
            // in each section at most one
            let r = o.relocs.iter().position(|r| r.location.section == SECTIONS[s]);
            check(r.is_some() && left[r.unwrap()], c"no relocation but the object's");
            let r = r.unwrap();
            left[r] = false;
            let q = &o.relocs[r];
            check(offset == q.location.pos && addend == q.addend as u64, c"place and addend of a relocation");
            check(ty == R_TYPES[TYPES.iter().position(|t| *t == q.ty).unwrap()], c"type of a relocation");
            check(sym < count, c"the symbol of a relocation is in the table");
            let ok = match (&q.target, what[sym as usize]) {
                (RelocTarget::Symbol(n), Some(Ok(k))) => o.symbols[k].name == *n,
                (RelocTarget::Section(s), Some(Err(x))) => x == ix[SECTIONS.iter().position(|t| t == s).unwrap()],
                _ => false,
            };
            check(ok, c"target of a relocation");
            reach(33);
        }
    }
    check(left.iter().all(|x| !x), c"each relocation is there");
    observe(1, f.0.len() as u64);
    observe(2, o.bss);
}
