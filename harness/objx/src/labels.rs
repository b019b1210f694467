//! The assembler's labels (xten0/src/asm/writer.rs, obj.rs): what an object denotes is what was written.
use crate::sx::*;
use std::io::Write;
use xten::asm::*;

const SECTIONS: [LocationSection; 4] = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
const TYPES: [RelocType; 4] = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64];

fn small(bits: u32) -> i64 {
    let v = int(64) as i64;
    assume(v >= -(1i64 << bits));
    assume(v <= (1i64 << bits));
    v
}

fn fill(w: &mut Writer, s: usize, n: u64) {
    match s { 0 => w.text().allocate(n), 1 => w.data().allocate(n), 2 => w.rodata().allocate(n), _ => w.bss().allocate(n) }.unwrap();
}
fn define(w: &mut Writer, s: usize, l: Label, g: bool) -> Location {
    match s { 0 => w.text().define(l, g), 1 => w.data().define(l, g), 2 => w.rodata().define(l, g), _ => w.bss().define(l, g) }
}
/// eight bytes that use the label
fn field(w: &mut Writer, s: usize, l: Label, addend: i64, ty: RelocType) -> u64 {
    let p;
    match s {
        0 => { p = w.text().location().pos; w.text().write_all(&[0xee; 8]).unwrap(); w.text().use_relative(-8, l, addend, ty) }
        1 => { p = w.data().location().pos; w.data().write_all(&[0xee; 8]).unwrap(); w.data().use_relative(-8, l, addend, ty) }
        _ => { p = w.rodata().location().pos; w.rodata().write_all(&[0xee; 8]).unwrap(); w.rodata().use_relative(-8, l, addend, ty) }
    }
    p
}

struct Use { s: usize, pos: u64, addend: i64, ty: usize, label: usize }
struct Def { s: usize, pos: u64, global: bool }
const NAMES: [Option<&str>; 3] = [Some("a"), None, Some("b")];

/// what the field of a use that is settled at once must hold, if it can be
fn settled(u: &Use, defs: &[Option<Def>; 3]) -> Option<i64> {
    let d = defs[u.label].as_ref()?;
    if d.s != u.s || u.ty > 1 { return None; }
    Some(d.pos as i64 + u.addend - u.pos as i64)
}
fn fits(v: i64, ty: usize) -> bool {
    if ty == 0 { v >= -128 && v <= 127 } else { v >= -(1 << 31) && v < (1 << 31) }
}

/// One label of any kind, defined anywhere or nowhere, used in any way from two places, and a second label beside it
#[no_mangle]
pub extern "C" fn h_labels(def: u64, second: u64) {
    let mut w = Writer::new();
    let named = pick(2) == 0;
    let second = second as usize;
    let labels = [w.get_label("a"), w.issue_label(), w.get_label("b")];
    check(w.get_label("a") == labels[0], c"the same name gives the same label");
    let l = if named { 0 } else { 1 };
    let mut defs = [None, None, None];
    let mut uses: Vec<Use> = vec![];
    // the other label
    let bs = pick(4);
    let before = [0, 3, 130][pick(3)];
    let between = [0, 118, 127][pick(3)];
    let bpos = { let p = define(&mut w, bs, labels[2], true); p.pos };
    defs[2] = Some(Def { s: bs, pos: bpos, global: true });
    let global = def < 8 && def % 2 == 1;
    let early = pick(2) == 0;
    let ds = (def / 2) as usize % 4;
    let put = |w: &mut Writer, defs: &mut [Option<Def>; 3]| {
        if def < 8 {
            fill(w, ds, before);
            let at = define(w, ds, labels[l], global);
            check(at.section == SECTIONS[ds], c"a definition is in the section it was written to");
            defs[l] = Some(Def { s: ds, pos: at.pos, global });
            fill(w, ds, between);
        }
    };
    if early { put(&mut w, &mut defs); }
    let us = pick(3);
    let ty = pick(4);
    let addend = small(40);
    let pos = field(&mut w, us, labels[l], addend, TYPES[ty]);
    uses.push(Use { s: us, pos, addend, ty, label: l });
    if second > 0 {
        // a second use, of this label or of the other one
        let which = if second == 1 { l } else { 2 };
        let us = pick(3);
        let ty = pick(4);
        let addend = small(8);
        fill(&mut w, us, 1);
        let pos = field(&mut w, us, labels[which], addend, TYPES[ty]);
        uses.push(Use { s: us, pos, addend, ty, label: which });
    }
    if !early { put(&mut w, &mut defs); }
    let mut ends = [0u64; 4];
    ends[0] = w.text().location().pos;
    ends[1] = w.data().location().pos;
    ends[2] = w.rodata().location().pos;
    ends[3] = w.bss().location().pos;
    // a distance that does not fit its field is refused
    let mut bad = false;
    for u in &uses {
        if let Some(v) = settled(u, &defs) { if !fits(v, u.ty) { bad = true; } }
    }
    if bad { panic_ok(true); }
    let o = w.produce();
    let lost = uses.iter().any(|u| NAMES[u.label].is_none() && defs[u.label].is_none());
    let o = match o { Ok(o) => o, Err(_) => { check(lost, c"a label with a name or a definition can be used"); reach(1); return } };
    check(!bad, c"a distance that does not fit is not written");
    check(!lost, c"a label with neither name nor definition is refused");
    // symbols: each name once, bound where it was defined
    check(o.symbols.len() == 2, c"every name is a symbol");
    for i in [0usize, 2] {
        let name = NAMES[i].unwrap();
        let s: Vec<_> = o.symbols.iter().filter(|s| s.name == name).collect();
        check(s.len() == 1, c"a name is one symbol");
        let ok = match (&defs[i], &s[0].binding) {
            (None, Binding::Global(None)) => true,
            (Some(d), Binding::Global(Some(x))) => d.global && x.section == SECTIONS[d.s] && x.pos == d.pos,
            (Some(d), Binding::Local(x)) => !d.global && x.section == SECTIONS[d.s] && x.pos == d.pos,
            _ => false,
        };
        check(ok, c"a symbol is bound as its label was defined");
    }
    check(o.text.len() as u64 == ends[0] && o.data.len() as u64 == ends[1] && o.rodata.len() as u64 == ends[2] && o.bss == ends[3], c"sections keep their sizes");
    // uses: settled in the field, or one relocation that denotes the same place
    let mut settled_fields: Vec<(usize, u64, u64)> = vec![];
    let mut left = 0;
    for u in &uses {
        let here: Vec<_> = o.relocs.iter().filter(|r| r.location.section == SECTIONS[u.s] && r.location.pos == u.pos).collect();
        match settled(u, &defs) {
            Some(v) if here.is_empty() => {
                let n = if u.ty == 0 { 1 } else { 4 };
                let sec = [&o.text, &o.data, &o.rodata][u.s];
                let mut x = 0i64;
                for i in (0..n).rev() { x = (x << 8) | sec[u.pos as usize + i] as i64; }
                let x = if n == 1 { x as i8 as i64 } else { x as i32 as i64 };
                check(x == v, c"a settled field is definition + addend - place");
                settled_fields.push((u.s, u.pos, n as u64));
                reach(2);
            }
            _ => {
                left += 1;
                check(here.len() == 1, c"a use that is not settled is one relocation");
                let r = here[0];
                check(r.ty == TYPES[u.ty], c"a relocation keeps its type");
                // where the target is, as far as this object knows
                let want = match &defs[u.label] { Some(d) => Some((SECTIONS[d.s], d.pos as i64 + u.addend)), None => None };
                match &r.target {
                    RelocTarget::Section(s) => {
                        check(want == Some((*s, r.addend)), c"a relocation against a section denotes the definition");
                        reach(3);
                    }
                    RelocTarget::Symbol(n) => {
                        check(NAMES[u.label] == Some(n.as_str()), c"a relocation against a symbol names the label");
                        check(r.addend == u.addend, c"a relocation against a symbol keeps its addend");
                        reach(4);
                    }
                }
            }
        }
    }
    check(o.relocs.len() == left, c"no relocation beyond the uses");
    // nothing else was written over
    for s in 0..3 {
        let sec = [&o.text, &o.data, &o.rodata][s];
        let nop = if s == 0 { 0x90 } else { 0 };
        for i in 0..sec.len() as u64 {
            if settled_fields.iter().any(|f| f.0 == s && f.1 <= i && i < f.1 + f.2) { continue; }
            if uses.iter().any(|u| u.s == s && u.pos <= i && i < u.pos + 8) {
                if !settled_fields.iter().any(|f| f.0 == s && f.1 <= i && i < f.1 + 8) { continue; } // the field of a relocation: its content is not looked at
                check(sec[i as usize] == 0xee, c"bytes beside a settled field are kept");
            } else { check(sec[i as usize] == nop, c"bytes outside the uses are kept"); }
        }
    }
    if global { reach(5); }
    observe(1, o.relocs.len() as u64);
}

/// alignment: the least amount of filler that reaches a multiple
#[no_mangle]
pub extern "C" fn h_align() {
    let s = pick(4);
    let mut w = Writer::new();
    let n = if s == 3 { let n = int(64); assume(n < 1 << 40); n } else { pick(20) as u64 };
    fill(&mut w, s, n);
    let a = 1u64 << pick(6);
    match s { 0 => w.text().align(a), 1 => w.data().align(a), 2 => w.rodata().align(a), _ => w.bss().align(a) }.unwrap();
    let p = match s { 0 => w.text().location().pos, 1 => w.data().location().pos, 2 => w.rodata().location().pos, _ => w.bss().location().pos };
    check(p & (a - 1) == 0 && p >= n && p < n + a, c"alignment is reached, with no more than it takes");
    let o = w.produce().unwrap();
    check([o.text.len() as u64, o.data.len() as u64, o.rodata.len() as u64, o.bss][s] == p, c"the section is that long");
    reach(6);
    observe(2, p);
}

struct Ops { g: Gpr64, x: Xmm, imm: i32 }
static G64: [Gpr64; 16] = [Rax, Rcx, Rdx, Rbx, Rsp, Rbp, Rsi, Rdi, R8, R9, R10, R11, R12, R13, R14, R15];
static X: [Xmm; 16] = [Xmm0, Xmm1, Xmm2, Xmm3, Xmm4, Xmm5, Xmm6, Xmm7, Xmm8, Xmm9, Xmm10, Xmm11, Xmm12, Xmm13, Xmm14, Xmm15];
type F = (u8, fn(&mut Writer, Label, &Ops), fn(&mut Vec<u8>, i32, &Ops));
macro_rules! jumps { ($($m:ident)*) => { [
    $((1u8, (|w, l, _| w.$m(l).unwrap()) as fn(&mut Writer, Label, &Ops), (|v, d, _| v.$m(d).unwrap()) as fn(&mut Vec<u8>, i32, &Ops)),
      (0u8, (|w, l, _| w.$m(Short(l)).unwrap()) as fn(&mut Writer, Label, &Ops), (|v, d, _| v.$m(d as i8).unwrap()) as fn(&mut Vec<u8>, i32, &Ops)),)*
] } }
static JUMPS: [F; 62] = jumps!(jmpq ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz);
static OTHERS: [F; 10] = [
    (1, |w, l, _| w.callq(l).unwrap(), |v, d, _| v.callq(d).unwrap()),
    (2, |w, l, _| w.callq(AddressTable(l)).unwrap(), |v, d, _| v.callq(memory(Rip + d)).unwrap()),
    (2, |w, l, _| w.jmpq(AddressTable(l)).unwrap(), |v, d, _| v.jmpq(memory(Rip + d)).unwrap()),
    (1, |w, l, o| w.movq(l, o.g).unwrap(), |v, d, o| v.movq(memory(Rip + d), o.g).unwrap()),
    (1, |w, l, o| w.movq(l, o.x).unwrap(), |v, d, o| v.movq(memory(Rip + d), o.x).unwrap()),
    (1, |w, l, o| w.movq(l, o.imm).unwrap(), |v, d, o| v.movq(memory(Rip + d), o.imm).unwrap()),
    (1, |w, l, o| w.movq(o.g, l).unwrap(), |v, d, o| v.movq(o.g, memory(Rip + d)).unwrap()),
    (1, |w, l, o| w.movq(o.x, l).unwrap(), |v, d, o| v.movq(o.x, memory(Rip + d)).unwrap()),
    (2, |w, l, o| w.movq(o.g, AddressTable(l)).unwrap(), |v, d, o| v.movq(o.g, memory(Rip + d)).unwrap()),
    (2, |w, l, o| w.movq(o.x, AddressTable(l)).unwrap(), |v, d, o| v.movq(o.x, memory(Rip + d)).unwrap()),
];
// leaq is beside the ten: one form
static LEAQ: F = (1, |w, l, o| w.leaq(o.g, l).unwrap(), |v, d, o| v.leaq(o.g, memory(Rip + d)).unwrap());

/// An instruction that names a label is the instruction with the distance to the label: `from..to` of the 73
#[no_mangle]
pub extern "C" fn h_insts(from: u64, to: u64) {
    let k = from as usize + pick((to - from) as usize);
    let (ty, with_label, raw) = if k < 62 { JUMPS[k] } else if k < 72 { OTHERS[k - 62] } else { LEAQ };
    let o = Ops { g: G64[choose(16)], x: X[choose(16)], imm: int(32) as i32 };
    let mut z = vec![];
    raw(&mut z, 0, &o);
    let mut f = vec![];
    raw(&mut f, -1, &o);
    let n = z.len();
    check(f.len() == n, c"both distances give the same form");
    let width = if ty == 0 { 1 } else { 4 };
    // the place of the distance in the instruction: found in an instance with plain operands
    let plain = Ops { g: Rax, x: Xmm0, imm: 0 };
    let (mut pz, mut pf) = (vec![], vec![]);
    raw(&mut pz, 0, &plain);
    raw(&mut pf, -1, &plain);
    let tail = pz.len() - (0..pz.len()).rev().find(|&i| pz[i] != pf[i]).unwrap() - 1;
    let p = n - width - tail;
    let place = pick(3); // defined before, after, elsewhere
    let gap = [0u64, 1, 123, 124, 125, 126, 127, 128, 129][pick(9)];
    let mut w = Writer::new();
    let l = if pick(2) == 0 { w.get_label("l") } else { w.issue_label() };
    let mut start = 3;
    fill(&mut w, 0, 3);
    let mut def = None;
    if place == 0 { def = Some(w.text().define(l, false).pos); fill(&mut w, 0, gap); start = w.text().location().pos; }
    if place == 2 { w.data().allocate(5).unwrap(); w.data().define(l, true); }
    with_label(&mut w, l, &o);
    let end = start + n as u64;
    check(w.text().location().pos == end, c"the label takes the place of a distance");
    if place == 1 { fill(&mut w, 0, gap); def = Some(w.text().define(l, true).pos); }
    let d = def.map(|d| d as i64 - end as i64).unwrap_or(0);
    let bad = ty == 0 && place != 2 && !(d >= -128 && d <= 127);
    if bad { panic_ok(true); }
    let obj = w.produce().unwrap();
    check(!bad, c"a distance that does not fit is not written");
    if place != 2 && ty != 2 {
        let mut want = vec![];
        raw(&mut want, d as i32, &o);
        check(obj.relocs.is_empty(), c"a label of this section needs no relocation");
        let mut ok = true;
        for i in 0..n { ok &= obj.text[start as usize + i] == want[i]; }
        check(ok, c"the instruction reaches the label");
        reach(7);
    } else {
        check(obj.relocs.len() == 1, c"one relocation");
        let r = &obj.relocs[0];
        check(r.location.section == LocationSection::Text && r.location.pos == start + p as u64, c"the relocation is at the distance");
        check(r.ty == TYPES[ty as usize], c"the relocation is of the right type");
        // target + addend - place = target - end
        let base = match &r.target {
            RelocTarget::Symbol(s) => { check(s == "l", c"the relocation names the label"); 0 }
            RelocTarget::Section(s) => { check(place == 2 && *s == LocationSection::Data || place != 2 && *s == LocationSection::Text, c"the relocation is against the section of the label"); if place == 2 { 5 } else { def.unwrap() as i64 } }
        };
        check(r.addend == base + p as i64 - n as i64, c"the distance counts from the end of the instruction");
        let mut ok = true;
        for i in 0..n { if i < p || i >= p + width { ok &= obj.text[start as usize + i] == z[i]; } }
        check(ok, c"the rest of the instruction is as without the label");
        reach(8);
    }
    reach(100 + k as u64);
}
