//! B04: layouts against the System V ABI.
use crate::sx;
use llrl::backend::native::mem_layout::*;
use llrl::lowering::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
enum C { None, Int, Fp, Mem }
/// size, alignment, class of each byte-aligned field, per the ABI
#[derive(Clone)]
struct M { size: usize, align: usize, fields: Vec<(usize, usize, C)>, offs: Vec<usize>, sum: bool }
fn scalar(size: usize, c: C) -> M { M { size, align: size, fields: vec![(0, size, c)], offs: vec![], sum: false } }
fn pair() -> M { M { size: 16, align: 8, fields: vec![(0, 8, C::Int), (8, 8, C::Int)], offs: vec![], sum: false } }
fn up(x: usize, a: usize) -> usize { if a == 0 { x } else { (x + a - 1) / a * a } }
fn product(ms: &[M]) -> M {
    let (mut o, mut al, mut f, mut offs) = (0, 0, vec![], vec![]);
    for m in ms {
        o = up(o, m.align);
        offs.push(o);
        for (p, s, c) in &m.fields { f.push((o + p, *s, *c)) }
        o += m.size;
        if m.align > al { al = m.align }
    }
    M { size: up(o, al), align: al, fields: f, offs, sum: false }
}
fn sum(ms: &[M]) -> M {
    let (mut s, mut al, mut f) = (0, 0, vec![]);
    for m in ms { if m.size > s { s = m.size } if m.align > al { al = m.align } f.extend(m.fields.iter().cloned()) }
    M { size: up(s, al), align: al, fields: f, offs: vec![], sum: true }
}
struct G { next: CtIdGen, defs: HashMap<CtId, Arc<Def>> }
impl G {
    fn leaf(&mut self, wide: bool) -> (Ct, M) {
        match sx::choose(if wide { 14 } else { 6 }) {
            0 => (Ct::S(8), scalar(1, C::Int)),
            1 => (Ct::F32, scalar(4, C::Fp)),
            2 => (Ct::U(64), scalar(8, C::Int)),
            3 => (Ct::F64, scalar(8, C::Fp)),
            4 => (Ct::U(32), scalar(4, C::Int)),
            5 => (Ct::Unit, M { size: 0, align: 0, fields: vec![], offs: vec![], sum: false }),
            6 => (Ct::U(16), scalar(2, C::Int)),
            7 => (Ct::U(1), scalar(1, C::Int)),
            8 => (Ct::Char, scalar(4, C::Int)),
            9 => (Ct::Ptr(Box::new(Ct::F64)), scalar(8, C::Int)),
            10 => (Ct::String, pair()),
            11 => (Ct::Array(Box::new(Ct::F32)), pair()),
            12 => (Ct::Syntax(Box::new(Ct::Unit)), scalar(8, C::Int)),
            _ => (Ct::Clos(Box::new((vec![], Ct::Unit))), pair()),
        }
    }
    fn ct(&mut self, depth: u64, width: u64) -> (Ct, M) {
        if depth == 0 { return self.leaf(false) }
        match sx::choose(if depth > 1 { 3 } else { 2 }) {
            0 => {
                let n = sx::choose(width as usize + 1);
                let fs: Vec<(Ct, M)> = (0..n).map(|_| self.ct(depth - 1, width)).collect();
                let id = self.next.next();
                self.defs.insert(id, Arc::new(Def::Struct(Struct::new(StructRepr::Standard, fs.iter().map(|f| f.0.clone()).collect()))));
                (Ct::Id(id), product(&fs.iter().map(|f| f.1.clone()).collect::<Vec<_>>()))
            }
            1 => {
                let n = sx::choose(width as usize + 1);
                let fs: Vec<(Ct, M)> = (0..n).map(|_| self.ct(depth - 1, width)).collect();
                let id = self.next.next();
                self.defs.insert(id, Arc::new(Def::Union(Union::new(fs.iter().map(|f| f.0.clone()).collect()))));
                (Ct::Id(id), sum(&fs.iter().map(|f| f.1.clone()).collect::<Vec<_>>()))
            }
            _ => self.leaf(false),
        }
    }
}
fn cls(c: Class) -> C { match c { Class::Void => C::None, Class::Integer => C::Int, Class::FloatingPoint => C::Fp, Class::Memory => C::Mem } }
fn verify(l: &Layout, m: &M) {
    sx::check(l.size == m.size, c"the size is the one of the ABI");
    sx::check(l.align == m.align, c"the alignment is the one of the ABI");
    sx::check(l.num_eightbytes() == (m.size + 7) / 8, c"number of eightbytes");
    sx::check(l.size_in_stack(false) == (m.size + 7) / 8 * 8, c"room on the stack");
    if m.size > 16 { sx::check(l.class == Class::Memory, c"what exceeds two eightbytes is passed in memory"); }
    else {
        sx::check((l.class == Class::Memory) == false, c"what fits two eightbytes is passed in registers");
        sx::check((l.class == Class::Void) == (m.size == 0), c"only empty data have no class");
        for (k, e) in l.eightbytes().enumerate() {
            sx::check(e.offset == 8 * k && e.size == (m.size - 8 * k).min(8), c"eightbytes follow one another");
            let mut c = C::None;
            for (o, s, f) in &m.fields { if *o < 8 * k + 8 && o + s > 8 * k { c = match (c, *f) { (C::Int, _) | (_, C::Int) => C::Int, (C::Fp, _) | (_, C::Fp) => C::Fp, _ => C::None } } }
            // a union may be handled more strictly than its fields need, but consistently: never as a float when a field is an integer
            if !m.sum && !has_sum(m) { sx::check(cls(e.class) == c, c"the class of an eightbyte merges those of its fields") }
            else if c == C::Int { sx::check(e.class == Class::Integer, c"an eightbyte with an integer is an integer") }
        }
    }
}
fn has_sum(_m: &M) -> bool { SUM.load(std::sync::atomic::Ordering::Relaxed) }
static SUM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// every type of that depth whose structures and unions have up to `width` parts; depth 0: the scalar types
#[no_mangle]
pub extern "C" fn h_layout(depth: u64, width: u64) {
    let mut g = G { next: CtIdGen::new(), defs: HashMap::new() };
    let mut fs = vec![];
    let (ct, m) = if depth == 0 { g.leaf(true) } else {
        // the outermost type is a structure, so that the fields are known
        let n = sx::choose(width as usize + 1);
        fs = (0..n).map(|_| if depth == 1 { g.leaf(width <= 3) } else { g.ct(depth - 1, width) }).collect();
        let id = g.next.next();
        g.defs.insert(id, Arc::new(Def::Struct(Struct::new(StructRepr::Standard, fs.iter().map(|f| f.0.clone()).collect()))));
        (Ct::Id(id), product(&fs.iter().map(|f| f.1.clone()).collect::<Vec<_>>()))
    };
    SUM.store(g.defs.values().any(|d| matches!(**d, Def::Union(_))), std::sync::atomic::Ordering::Relaxed);
    let mut r = LayoutResolver::new();
    r.register(&g.defs);
    let l = r.get(&ct);
    verify(&l, &m);
    if depth > 0 {
        let c = l.composite.as_ref().unwrap();
        sx::check(c.elems.len() == fs.len(), c"one place per field");
        let mut end = 0;
        for (k, (o, fl)) in c.elems.iter().enumerate() {
            sx::check(*o == m.offs[k], c"a field is at the offset of the ABI");
            sx::check(*o >= end && o + fl.size <= l.size, c"fields do not overlap and lie inside");
            end = o + fl.size;
            sx::check(*fl == r.get(&fs[k].0), c"a field has the layout of its type");
        }
    }
    sx::reach(1);
}
