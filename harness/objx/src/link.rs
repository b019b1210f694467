//! The JIT's linker (xten0/src/jit.rs): what it loads is the objects, with every use of a symbol turned into its address.
use crate::sx::*;
use xten::asm::*;
use xten::jit::{Engine, Error};

extern "C" {
    fn maps_on(x: u64);
    fn maps_arena() -> *mut u8;
    fn maps_prot(p: *const u8, n: u64) -> u64;
    fn maps_bad() -> u64;
    fn maps_held() -> u64;
    fn maps_within(p: *const u8, n: u64) -> u64;
}
const SECTIONS: [LocationSection; 4] = [LocationSection::Text, LocationSection::Data, LocationSection::Rodata, LocationSection::Bss];
const TYPES: [RelocType; 4] = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64];

static mut RESOLVED: *const u8 = std::ptr::null();
fn resolver(s: &str) -> *const u8 { if s == "x" { unsafe { RESOLVED } } else { std::ptr::null() } }

/// where the sections of an object are, as its own symbols say
struct Place { at: [*const u8; 4] }
const SIZES: [usize; 4] = [40, 24, 33, 50];
fn byte(o: usize, s: usize, i: usize) -> u8 { (o * 64 + s * 16 + i * 5 + 1) as u8 }
fn object(o: usize, big: usize) -> Object {
    let f = |s: usize| (0..SIZES[s] + if s == 0 { big } else { 0 }).map(|i| byte(o, s, i)).collect::<Vec<u8>>();
    let names = [["t0", "d0", "r0", "b0"], ["t1", "d1", "r1", "b1"]][o];
    Object {
        text: f(0), data: f(1), rodata: f(2), bss: SIZES[3] as u64,
        symbols: (0..4).map(|s| Symbol::new(names[s].to_string(), Binding::Global(Some(Location::new(SECTIONS[s], 0))))).collect(),
        relocs: vec![],
    }
}
fn place(e: &Engine<fn(&str) -> *const u8>, o: usize) -> Place {
    let names = [["t0", "d0", "r0", "b0"], ["t1", "d1", "r1", "b1"]][o];
    Place { at: [0, 1, 2, 3].map(|s| e.get(names[s]).unwrap_or(std::ptr::null())) }
}
fn read(p: *const u8, n: usize) -> i64 {
    let mut x = 0u64;
    for i in (0..n).rev() { x = x << 8 | unsafe { *p.add(i) } as u64; }
    match n { 1 => x as i8 as i64, 4 => x as i32 as i64, _ => x as i64 }
}

/// kinds of binding of x: none, local in text or data, global with a place, global from elsewhere
fn bind(o: &mut Object, k: usize) -> Option<(usize, u64)> {
    let (s, p) = [(9, 0), (0, 6), (1, 3), (2, 9), (9, 0)][k];
    let loc = Location::new(SECTIONS[s.min(3)], p);
    match k {
        0 => return None,
        1 | 2 => o.symbols.push(Symbol::new("x".to_string(), Binding::Local(loc))),
        3 => o.symbols.push(Symbol::new("x".to_string(), Binding::Global(Some(loc)))),
        _ => { o.symbols.push(Symbol::new("x".to_string(), Binding::Global(None))); return None }
    }
    Some((s, p))
}



/// Two objects, one name, one use in each: `first`/`second` say how each object binds the name
#[no_mangle]
pub extern "C" fn h_link(first: u64, second: u64) {
    let arena = unsafe { maps_arena() };
    unsafe { maps_on(1) };
    {
        let mut e: Engine<fn(&str) -> *const u8> = Engine::new(resolver as fn(&str) -> *const u8);
        // a symbol from outside: none, registered at any address, or found by the resolver when asked for
        let from = pick(3);
        let mut global: Option<*const u8> = None;
        if from == 1 {
            let a = arena.wrapping_add(int(64) as usize) as *const u8;
            check(e.register("x", a).is_ok(), c"a symbol is registered");
            check(e.register("x", arena) == Err(Error::DuplicateSymbol("x".to_string())), c"a symbol is registered once");
            global = Some(a);
        } else if from == 2 { unsafe { RESOLVED = arena.wrapping_add(int(64) as usize) as *const u8; assume(!RESOLVED.is_null()); } }
        let resolved = unsafe { RESOLVED };
        let mut slots: Vec<(*const u8, *const u8)> = vec![];
        let mut places: Vec<(Place, usize, Vec<(usize, u64, usize)>)> = vec![];
        for o in 0..2 {
            // the second object may not fit the rest of the first page
            let big = if o == 1 && pick(2) == 1 { 4060 } else { 0 };
            let mut obj = object(o, big);
            let kind = [first, second][o] as usize;
            let local = bind(&mut obj, kind);
            let ty = if o == 0 { [2, 3][pick(2)] } else { pick(4) };
            let target = if o == 0 { 0 } else { pick(5) };
            // a use of a slot is either near it or out of reach: where the slot will be is not known beforehand
            let near_addend = ty != 2 || pick(2) == 0;
            let addend = int(64) as i64;
            if ty != 2 { assume(addend > -(1 << 48) && addend < 1 << 48); }
            else if near_addend { assume(addend > -(1 << 24) && addend < 1 << 24); }
            else { assume(addend > -(1 << 48) && addend < -(1 << 32) || addend > 1 << 32 && addend < 1 << 48); }
            let s = if o == 0 { 0 } else { pick(3) };
            let at = [17u64, 8, 5][s];
            let uses = o == 1 || pick(2) == 1;
            if uses {
                let t = if target == 0 { RelocTarget::Symbol("x".to_string()) } else { RelocTarget::Section(SECTIONS[target - 1]) };
                obj.relocs.push(Reloc::new(Location::new(SECTIONS[s], at), t, addend, TYPES[ty]));
            }
            let r = e.add_object(&obj);
            // how the name is bound now
            let mut want = 0;
            if kind == 3 { if global.is_some() { want = 1; } } else if kind == 4 && global.is_none() { if from == 2 { global = Some(resolved); } else { want = 2; } }
            if want == 0 {
                let p = place(&e, o);
                if let (3, Some((s, at))) = (kind, local) { global = Some(p.at[s].wrapping_add(at as usize)); }
                let here = match local { Some((s, at)) if kind < 3 => Some(p.at[s].wrapping_add(at as usize)), _ => global };
                check(e.get("x") == global, c"the symbol has the address it was bound to");
                let mut patched = vec![];
                if uses {
                    let field = p.at[s].wrapping_add(at as usize);
                    let t = if target == 0 { here } else { Some(p.at[target - 1]) };
                    if ty == 2 && target != 0 { want = 4; }
                    else if let Some(t) = t {
                        let n = [1usize, 4, 4, 8][ty];
                        if ty == 3 {
                            if r.is_ok() { check(read(field, 8) == (t as i64).wrapping_add(addend), c"an absolute use holds target + addend"); reach(10); }
                        } else if ty == 2 {
                            // the distance of a slot, read only like its pages, that holds the address
                            if r.is_ok() {
                                let v = read(field, 4);
                                let slot = (field as i64).wrapping_add(v).wrapping_sub(addend) as *const u8;
                                check(near_addend, c"a distance that does not fit is refused");
                                let slot = concretize(slot as u64) as *const u8;
                                let near = slot as usize - arena as usize;
                                check(near < 48 * 4096, c"a slot is in the JIT's own pages");
                                check(read(slot, 8) == t as i64, c"the slot holds the address");
                                check(unsafe { maps_prot(slot, 8) } == 1, c"the slot is read only");
                                slots.push((slot, t));
                                reach(11);
                            } else {
                                check(!near_addend, c"a distance that fits is not refused");
                                want = 3;
                            }
                        } else {
                            let v = (t as i64).wrapping_add(addend).wrapping_sub(field as i64);
                            let fit = if ty == 0 { v >= -128 && v <= 127 } else { v >= -(1 << 31) && v < 1 << 31 };
                            if fit { if r.is_ok() { check(read(field, n) == v, c"a relative use holds target + addend - place"); reach(12); } } else { want = 3; }
                        }
                        if want == 0 { patched.push((s, at, n)); }
                    } else { want = 2; }
                }
                places.push((p, big, patched));
            }
            let got = match &r {
                Ok(()) => 0, Err(Error::DuplicateSymbol(s)) => { check(s == "x", c"the duplicate is named"); 1 }
                Err(Error::UndefinedSymbol(s)) => { check(s == "x", c"the missing symbol is named"); 2 }
                Err(Error::OffsetOutOfRange(t, _)) => { check(*t == TYPES[ty], c"the kind of the distance is named"); 3 }
                Err(Error::UnsupportedSectionRelocation(t)) => { check(*t == TYPES[ty], c"the kind is named"); 4 }
                Err(_) => 5,
            };
            check(got == want, c"an object is refused for what is wrong with it, and taken otherwise");
            check(unsafe { maps_bad() } == 0, c"pages are asked for and protected whole");
            if want != 0 { reach(20 + want); break; }
            // every object so far is loaded, whole, where it was, and protected as its sections are
            for (k, (p, big, patched)) in places.iter().enumerate() {
                for s in 0..4 {
                    let n = SIZES[s] + if s == 0 { *big } else { 0 };
                    check(unsafe { maps_within(p.at[s], n as u64) } == 1, c"a section lies in mapped pages");
                    check(unsafe { maps_prot(p.at[s], n as u64) } == [5, 3, 1, 3][s], c"code can be run, data written, the rest only read");
                    check(p.at[s] as usize % 16 == 0, c"sections are aligned");
                    let mut same = true;
                    for i in 0..n {
                        if i >= SIZES[s] && i < n - 5 && i % 512 != 0 { continue; }
                        if patched.iter().any(|q| q.0 == s && q.1 as usize <= i && i < q.1 as usize + q.2) { continue; }
                        same &= unsafe { *p.at[s].add(i) } == if s == 3 { 0 } else { byte(k, s, i) };
                    }
                    check(same, c"a section is loaded as the object has it");
                    for (j, (q, qbig, _)) in places.iter().enumerate() {
                        for t in 0..4 {
                            let m = SIZES[t] + if t == 0 { *qbig } else { 0 };
                            if (j, t) != (k, s) { check(p.at[s] as usize + n <= q.at[t] as usize || q.at[t] as usize + m <= p.at[s] as usize, c"sections lie apart"); }
                        }
                    }
                    for (slot, t) in &slots {
                        check(p.at[s] as usize + n <= *slot as usize || *slot as usize + 8 <= p.at[s] as usize, c"slots lie apart from sections");
                        check(read(*slot, 8) == *t as i64, c"a slot keeps its address");
                    }
                }
            }
            if o == 1 { reach(13); }
        }
    }
    check(unsafe { maps_held() } == 0 && unsafe { maps_bad() } == 0, c"every page is given back");
    unsafe { maps_on(0) };
}
