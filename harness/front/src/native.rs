//! B05: S-expressions in the form compiled macros see.
use crate::sx;
use llrl::ast::{Construct, ModuleId, NodeId};
use llrl::backend::native::data::*;
use llrl::sexp::*;
use llrl::source_loc::*;

type Nat = NativeSyntax<NativeSexp>;

/// any location
fn loc() -> SourceLocation {
    let (a, b) = (sx::int(32) as u32, sx::int(32) as u32);
    unsafe { std::mem::transmute::<[u32; 2], SourceLocation>([a, b]) }
}
fn string() -> String {
    let n = sx::pick(3);
    let mut b = sx::bytes(n);
    for x in b.iter_mut() { *x &= 0x7f }
    unsafe { String::from_utf8_unchecked(b) }
}
fn leaf(k: usize) -> Sexp {
    let l = loc();
    match k {
        0 => Sexp::integer(l, sx::int(1) == 1, sx::u64()),
        1 => { let x = f64::from_bits(sx::u64()); Sexp::fpnumber(l, x.into()) }
        2 => Sexp::bool(l, sx::int(1) == 1),
        3 => Sexp::symbol(l, string()),
        4 => Sexp::string(l, string()),
        5 => { let c = sx::int(21) as u32; sx::assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000)); Sexp::char(l, unsafe { char::from_u32_unchecked(c) }) }
        6 => Sexp::nil(l),
        _ => {
            let (m, i) = (sx::int(31) as u32, sx::int(32) as u32);
            let u = match sx::pick(4) {
                0 => Construct::DataTypeCon(NodeId::new_unchecked(ModuleId::from_index(m as usize), i)),
                1 => Construct::Function(NodeId::new_unchecked(ModuleId::from_index(m as usize), i)),
                2 => Construct::KindAnn(NodeId::new_unchecked(ModuleId::from_index(m as usize), i)),
                _ => Construct::Parameter(NodeId::new_unchecked(ModuleId::from_index(m as usize), i)),
            };
            Sexp::native(l, u)
        }
    }
}
/// few: only numbers, symbols and nil at the leaves
fn tree(depth: u64, width: usize, few: bool) -> Sexp {
    let leaves = if few { 3 } else { 8 };
    let c = sx::pick(leaves + if depth > 0 { 2 } else { 0 });
    if c < leaves { return leaf(if few { [0, 3, 6][c] } else { c }) }
    if c == leaves { let n = sx::pick(width + 1); let l = loc(); return Sexp::list(l, (0..n).map(|_| tree(depth - 1, width, few)).collect()) }
    let l = loc();
    let h = tree(depth - 1, width, few);
    let n = sx::pick(width);
    let init = (0..n).map(|_| tree(depth - 1, width, few)).collect();
    Sexp::list_like(l, h, init, tree(depth - 1, width, few))
}
fn same(a: &Sexp, b: &Sexp) -> bool {
    if a.loc != b.loc { return false }
    match (&a.rep, &b.rep) {
        (SexpRep::Integer(s, v), SexpRep::Integer(t, w)) => s == t && v == w,
        (SexpRep::FPNumber(v), SexpRep::FPNumber(w)) => v.into_inner().to_bits() == w.into_inner().to_bits(),
        (SexpRep::Symbol(x), SexpRep::Symbol(y)) | (SexpRep::String(x), SexpRep::String(y)) => x.as_bytes() == y.as_bytes(),
        (SexpRep::Char(x), SexpRep::Char(y)) => x == y,
        (SexpRep::Bool(x), SexpRep::Bool(y)) => x == y,
        (SexpRep::List(x), SexpRep::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (SexpRep::ListLike(x), SexpRep::ListLike(y)) => same(&x.0, &y.0) && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(x, y)| same(x, y)) && same(&x.2, &y.2),
        (SexpRep::Native(x), SexpRep::Native(y)) => x.downcast_ref::<Construct>() == y.downcast_ref::<Construct>() && x.downcast_ref::<Construct>().is_some(),
        _ => false,
    }
}
/// what the data section of a compiled program holds for a constant
fn lay_out(r: &Rep) -> *mut u8 {
    let n = r.direct.len();
    sx::check(r.align != 0 && r.align <= 16 && n % r.align == 0, c"alignment of a constant");
    let v: Vec<u64> = vec![0; n / 8 + 2];
    let p = Box::leak(v.into_boxed_slice()).as_mut_ptr() as *mut u8;
    for i in 0..n { unsafe { *p.add(i) = r.direct[i] } }
    for (o, s) in &r.indirect {
        sx::check(*o + 8 <= n && *o % 8 == 0, c"a reference lies within its constant");
        let q = lay_out(s);
        unsafe { *(p.add(*o) as *mut *mut u8) = q }
    }
    p
}
/// a tree handed to a macro and back; as a constant of a compiled program as well if `embed`
#[no_mangle]
pub extern "C" fn h_native(depth: u64, width: u64, few: u64, embed: u64) {
    let t = tree(depth, width as usize, few != 0);
    let n = Nat::from_host(t.clone());
    sx::check(same(&n.into_host(), &t), c"a tree comes back as it was");
    if embed != 0 {
        let r = Rep::of(&n);
        let p = lay_out(&r) as *const Nat;
        sx::check(same(&unsafe { *p }.into_host(), &t), c"an embedded tree is the tree");
    }
    if sx::int(1) == 1 {
        let ok = NativeResult::<Nat, NativeString>::from_host(Ok(t.clone()));
        match ok.into_host() { Ok(u) => sx::check(same(&u, &t), c"a result comes back as it was"), Err(_) => sx::check(false, c"a result stays a result") }
    } else {
        let s = string();
        let e = NativeResult::<Nat, NativeString>::from_host(Err(s.clone()));
        match e.into_host() { Err(u) => sx::check(u.as_bytes() == s.as_bytes(), c"an error message comes back as it was"), Ok(_) => sx::check(false, c"an error stays an error") }
    }
    sx::reach(1);
}
