//! Functions without IR bodies: LLVM intrinsics, the harness interface, libc stubs.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext { Ir, Named(u32), Panic }
pub enum Out { Ret(Option<Val>), Entered }

/// Functions replaced by the engine even if the IR has a body for them.
const OVERRIDE: &[&str] = &["GC_malloc", "GC_init", "malloc", "free", "realloc", "calloc", "llrt_panic"];

pub fn ext_global(name: &str) -> Option<Vec<u8>> {
    match name { "environ" | "stdout" | "stderr" | "stdin" => Some(vec![0; 8]), "__dso_handle" => Some(vec![0; 8]), _ => None }
}

thread_local! { static NAMES: std::cell::RefCell<Vec<String>> = Default::default(); }

pub fn classify(m: &Module, id: u32) -> Ext {
    let n = &m.globals[id as usize - 1].name;
    let named = |n: &str| NAMES.with(|v| { let mut v = v.borrow_mut(); v.push(n.to_string()); Ext::Named(v.len() as u32 - 1) });
    if n.starts_with("symx_") && !m.is_defined(id) { return named(n); }
    if is_panic(n) { named(n); return Ext::Panic; }
    if m.is_defined(id) && !OVERRIDE.contains(&n.as_str()) { return Ext::Ir; }
    named(n)
}
fn is_panic(n: &str) -> bool {
    (n.contains("4core9panicking") || n.contains("3std9panicking")) && !n.contains("panic_count") && !n.contains("is_panicking") && !n.contains("9panicking9panicking") && !n.contains("catch_unwind") && !n.contains("update_hook") && !n.contains("take_hook")
        || n.contains("18handle_alloc_error") || n.ends_with("rust_panic_cannot_unwind")
}

fn w_of(e: &Engine, t: TyId) -> u16 { e.m.types.bits(t) }

fn map_lanes(e: &mut Engine, st: &mut State, ty: TyId, args: &[Val], f: &mut dyn FnMut(&mut Engine, &mut State, u16, &[Val]) -> R<Val>) -> R<Val> {
    match e.m.types.t(ty).clone() {
        Ty::Vector(n, et) => {
            let w = e.m.types.bits(et); let mut out = vec![];
            for k in 0..n as usize { let a: Vec<Val> = args.iter().map(|x| match x { Val::A(l) => l[k].clone(), v => v.clone() }).collect(); out.push(f(e, st, w, &a)?); }
            Ok(Val::A(Rc::new(out)))
        }
        _ => { let w = e.m.types.bits(ty); f(e, st, w, args) }
    }
}

fn minmax(e: &mut Engine, w: u16, a: &[Val], op: Op, swap: bool) -> R<Val> {
    let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w));
    let c = e.p.cmp(op, x, y);
    let r = if swap { e.p.ite(c, y, x) } else { e.p.ite(c, x, y) };
    Ok(e.mk(r))
}
fn popcount(e: &mut Engine, x: Ex, w: u16) -> Ex {
    let mut acc = e.p.c(w, 0);
    for k in 0..w { let b = e.p.extract(x, k, 1); let b = e.p.zext(b, w); acc = e.p.bin(Op::Add, acc, b); }
    acc
}
/// overflow flag of op on w-bit operands
pub fn with_overflow(e: &mut Engine, op: &str, w: u16, x: Ex, y: Ex) -> (Ex, Ex) {
    let (sgn, o) = (op.starts_with('s'), &op[1..]);
    let bop = match o { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
    let r = e.p.bin(bop, x, y);
    if !sgn && o == "add" { let ov = e.p.cmp(Op::Ult, r, x); return (r, ov); }
    if !sgn && o == "sub" { let ov = e.p.cmp(Op::Ult, x, y); return (r, ov); }
    let ew = if o == "mul" { 2 * w } else { w + 1 };
    if ew > 128 {
        // 64..128-bit multiplication: divide back
        let z = e.p.c(w, 0); let yz = e.p.eq(x, z);
        if sgn {
            let q = e.p.bin(Op::SDiv, r, x); let ne = e.p.eq(q, y); let ne = e.p.not(ne);
            let m1 = e.p.c(w, mask(w)); let mn = e.p.c(w, 1u128 << (w - 1));
            let a = e.p.eq(x, m1); let b = e.p.eq(y, mn); let sp = e.p.bin(Op::And, a, b);
            let t = e.p.bin(Op::Or, ne, sp); let f = e.p.fls(); let ov = e.p.ite(yz, f, t); return (r, ov);
        }
        let q = e.p.bin(Op::UDiv, r, x); let ne = e.p.eq(q, y); let ne = e.p.not(ne); let f = e.p.fls(); let ov = e.p.ite(yz, f, ne);
        return (r, ov);
    }
    let (xx, yy) = if sgn { (e.p.sext(x, ew), e.p.sext(y, ew)) } else { (e.p.zext(x, ew), e.p.zext(y, ew)) };
    let full = e.p.bin(bop, xx, yy);
    let back = if sgn { e.p.sext(r, ew) } else { e.p.zext(r, ew) };
    let eq = e.p.eq(full, back);
    let ov = e.p.not(eq);
    (r, ov)
}

fn intrinsic(e: &mut Engine, st: &mut State, n: &str, c: &CallI, a: &[Val]) -> R<Option<Val>> {
    let s = &n[5..];
    let base: String = { let mut parts: Vec<&str> = s.split('.').collect(); while parts.len() > 1 && is_ty_suffix(parts[parts.len() - 1]) { parts.pop(); } parts.join(".") };
    let rt = c.ret;
    let r: Val = match base.as_str() {
        "memcpy" | "memcpy.inline" | "memmove" => {
            let len = e.concretize(st, &a[2], 64)? as u64;
            if len == 0 { return Ok(None); }
            let d = e.addr(st, &a[0], len)?; let sr = e.addr(st, &a[1], len)?;
            e.copy(st, d, sr, len)?; return Ok(None);
        }
        "lifetime.end" => {
            if let Some(p) = a.last().and_then(|x| x.cv()) {
                let ng = e.ng;
                if let Ok((o, 0)) = st.mem.get_mut(p as u64, 1, ng) { if o.kind == crate::mem::Kind::Stack { o.s = None; o.b.fill(0xa5); } }
            }
            return Ok(None);
        }
        "memset" | "memset.inline" => {
            let len = e.concretize(st, &a[2], 64)? as u64;
            if len == 0 { return Ok(None); }
            let d = e.addr(st, &a[0], len)?;
            memset(e, st, d, &a[1], len)?; return Ok(None);
        }
        "umax" => map_lanes(e, st, rt, a, &mut |e, _, w, a| minmax(e, w, a, Op::Ult, true))?,
        "umin" => map_lanes(e, st, rt, a, &mut |e, _, w, a| minmax(e, w, a, Op::Ult, false))?,
        "smax" => map_lanes(e, st, rt, a, &mut |e, _, w, a| minmax(e, w, a, Op::Slt, true))?,
        "smin" => map_lanes(e, st, rt, a, &mut |e, _, w, a| minmax(e, w, a, Op::Slt, false))?,
        "abs" => map_lanes(e, st, rt, &a[..1], &mut |e, _, w, a| { let x = e.ex(&a[0], w); let z = e.p.c(w, 0); let c = e.p.cmp(Op::Slt, x, z); let n = e.p.bin(Op::Sub, z, x); let r = e.p.ite(c, n, x); Ok(e.mk(r)) })?,
        "ctpop" => map_lanes(e, st, rt, a, &mut |e, _, w, a| { if let Some(v) = a[0].cv() { return Ok(Val::C(v.count_ones() as u64)); } let x = e.ex(&a[0], w); let r = popcount(e, x, w); Ok(e.mk(r)) })?,
        "ctlz" | "cttz" => {
            let lead = base == "ctlz";
            map_lanes(e, st, rt, &a[..1], &mut |e, _, w, a| {
                if let Some(v) = a[0].cv() { return Ok(Val::C(if v == 0 { w as u64 } else if lead { (v.leading_zeros() - (128 - w as u32)) as u64 } else { v.trailing_zeros() as u64 })); }
                let x = e.ex(&a[0], w);
                let mut acc = e.p.c(w, w as u128);
                for k in 0..w { let bit = if lead { k } else { w - 1 - k }; let b = e.p.extract(x, bit, 1); let kv = e.p.c(w, if lead { w - 1 - bit } else { bit } as u128); acc = e.p.ite(b, kv, acc); }
                Ok(e.mk(acc))
            })?
        }
        "bswap" => map_lanes(e, st, rt, a, &mut |e, _, w, a| { let x = e.ex(&a[0], w); let mut acc = e.p.extract(x, 0, 8); for k in 1..w / 8 { let b = e.p.extract(x, k * 8, 8); acc = e.p.concat(acc, b); } Ok(e.mk(acc)) })?,
        "bitreverse" => map_lanes(e, st, rt, a, &mut |e, _, w, a| { let x = e.ex(&a[0], w); let mut acc = e.p.extract(x, 0, 1); for k in 1..w { let b = e.p.extract(x, k, 1); acc = e.p.concat(acc, b); } Ok(e.mk(acc)) })?,
        "fshl" | "fshr" => {
            let l = base == "fshl";
            map_lanes(e, st, rt, a, &mut |e, _, w, a| {
                let (x, y, z) = (e.ex(&a[0], w), e.ex(&a[1], w), e.ex(&a[2], w));
                let wc = e.p.c(w, w as u128); let s = e.p.bin(Op::URem, z, wc); let inv = e.p.bin(Op::Sub, wc, s);
                let r = if l { let h = e.p.bin(Op::Shl, x, s); let lo = e.p.bin(Op::LShr, y, inv); e.p.bin(Op::Or, h, lo) } else { let lo = e.p.bin(Op::LShr, y, s); let h = e.p.bin(Op::Shl, x, inv); e.p.bin(Op::Or, h, lo) };
                Ok(e.mk(r))
            })?
        }
        "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
            let w = w_of(e, c.argtys[0]); if w == 0 { return Err(Ctl::Unsup(n.into())); }
            let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w));
            let (r, o) = with_overflow(e, &base[..4], w, x, y);
            Val::A(Rc::new(vec![e.mk(r), e.mk(o)]))
        }
        "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => map_lanes(e, st, rt, a, &mut |e, _, w, a| {
            let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w));
            let (r, o) = with_overflow(e, &base[..4], w, x, y);
            let sat = match &base[..4] { "uadd" => e.p.c(w, mask(w)), "usub" => e.p.c(w, 0), _ => { let z = e.p.c(w, 0); let neg = e.p.cmp(Op::Slt, x, z); let mn = e.p.c(w, 1u128 << (w - 1)); let mx = e.p.c(w, mask(w - 1)); e.p.ite(neg, mn, mx) } };
            let r = e.p.ite(o, sat, r); Ok(e.mk(r))
        })?,
        "ucmp" | "scmp" => { let w = w_of(e, c.argtys[0]); let rw = w_of(e, rt); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
            let lt = e.p.cmp(op, x, y); let eq = e.p.eq(x, y); let (m1, z, o) = (e.p.c(rw, mask(rw)), e.p.c(rw, 0), e.p.c(rw, 1)); let t = e.p.ite(eq, z, o); let r = e.p.ite(lt, m1, t); e.mk(r) }
        "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" | "threadlocal.address" | "arithmetic.fence" | "annotation" | "ptr.annotation" => a[0].clone(),
        "ptrmask" => { let w = w_of(e, c.argtys[1]); let (x, m) = (e.ex(&a[0], 64), e.ex(&a[1], w)); let m = e.p.sext(m, 64); let r = e.p.bin(Op::And, x, m); e.mk(r) }
        "is.constant" => Val::C(0),
        "objectsize" => Val::C(!0),
        "trap" | "ubsantrap" | "debugtrap" => return Err(Ctl::Viol("trap".into(), "trap instruction executed (checked undefined behaviour)".into())),
        "prefetch" | "sideeffect" | "var.annotation" | "invariant.end" | "stackrestore" | "va_end" | "pseudoprobe" => return Ok(None),
        "invariant.start" | "stacksave" => Val::C(0),
        "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin" | "vector.reduce.smax" | "vector.reduce.smin" | "vector.reduce.mul" => {
            let w = w_of(e, rt);
            let l = match &a[0] { Val::A(l) => l.clone(), _ => return Err(Ctl::Unsup(n.into())) };
            let mut acc = l[0].clone();
            for x in &l[1..] {
                acc = match &base[14..] { "or" => e.bin(st, BinOp::Or, w, &acc, x)?, "and" => e.bin(st, BinOp::And, w, &acc, x)?, "add" => e.bin(st, BinOp::Add, w, &acc, x)?, "mul" => e.bin(st, BinOp::Mul, w, &acc, x)?, "xor" => e.bin(st, BinOp::Xor, w, &acc, x)?,
                    "umax" => minmax(e, w, &[acc, x.clone()], Op::Ult, true)?, "umin" => minmax(e, w, &[acc, x.clone()], Op::Ult, false)?, "smax" => minmax(e, w, &[acc, x.clone()], Op::Slt, true)?, _ => minmax(e, w, &[acc, x.clone()], Op::Slt, false)? };
            }
            acc
        }
        "fabs" => map_lanes(e, st, rt, a, &mut |e, st, w, a| e.bin(st, BinOp::And, w, &a[0], &Val::c(mask(w - 1))))?,
        "copysign" => map_lanes(e, st, rt, a, &mut |e, st, w, a| { let m = e.bin(st, BinOp::And, w, &a[0], &Val::c(mask(w - 1)))?; let s = e.bin(st, BinOp::And, w, &a[1], &Val::c(1u128 << (w - 1)))?; e.bin(st, BinOp::Or, w, &m, &s) })?,
        "sqrt" => map_lanes(e, st, rt, a, &mut |e, _, w, a| { let x = e.ex(&a[0], w); let r = e.p.fp(Op::FSqrt, w, x, NONE, 0); Ok(e.mk(r)) })?,
        "rint" | "nearbyint" | "roundeven" | "ceil" | "floor" | "trunc" | "round" => {
            let k = match base.as_str() { "ceil" => 1, "floor" => 2, "trunc" => 3, "round" => 4, _ => 0 };
            map_lanes(e, st, rt, a, &mut |e, _, w, a| { let x = e.ex(&a[0], w); let r = e.p.fp(Op::FRound, w, x, NONE, k); Ok(e.mk(r)) })?
        }
        "minnum" | "maxnum" => {
            let mn = base == "minnum";
            map_lanes(e, st, rt, a, &mut |e, _, w, a| { let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let nx = e.p.fp(Op::FIsNan, 1, x, NONE, 0); let ny = e.p.fp(Op::FIsNan, 1, y, NONE, 0);
                let lt = e.p.fp(Op::FLt, 1, x, y, 0); let r = if mn { e.p.ite(lt, x, y) } else { e.p.ite(lt, y, x) }; let r = e.p.ite(ny, x, r); let r = e.p.ite(nx, y, r); Ok(e.mk(r)) })?
        }
        "fptosi.sat" | "fptoui.sat" => {
            let fw = w_of(e, c.argtys[0]); let tw = w_of(e, rt); let sg = base == "fptosi.sat";
            let x = e.ex(&a[0], fw);
            let (lo, hi): (f64, f64) = if sg { (-(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1)) } else { (0.0, 2f64.powi(tw as i32)) };
            let fc = |v: f64| if fw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
            let (lc, hc) = (e.p.c(fw, fc(lo)), e.p.c(fw, fc(hi)));
            let nan = e.p.fp(Op::FIsNan, 1, x, NONE, 0); let ge = e.p.fp(Op::FLe, 1, hc, x, 0); let le = e.p.fp(Op::FLe, 1, x, lc, 0);
            let conv = e.p.fp(if sg { Op::FToSI } else { Op::FToUI }, tw, x, NONE, 0);
            let (mn, mx) = if sg { (1u128 << (tw - 1), mask(tw - 1)) } else { (0, mask(tw)) };
            let (mn, mx, z) = (e.p.c(tw, mn), e.p.c(tw, mx), e.p.c(tw, 0));
            let r = e.p.ite(le, mn, conv); let r = e.p.ite(ge, mx, r); let r = e.p.ite(nan, z, r); e.mk(r)
        }
        "fma" | "fmuladd" => { if base == "fmuladd" || a.iter().all(|x| x.cv().is_some()) {
                map_lanes(e, st, rt, a, &mut |e, st, w, a| { if base == "fma" && a.iter().all(|x| x.cv().is_some()) { if w == 64 { let f = |k: usize| f64::from_bits(a[k].cv().unwrap() as u64); return Ok(Val::C(f(0).mul_add(f(1), f(2)).to_bits())); } }
                    let t = e.bin(st, BinOp::FMul, w, &a[0], &a[1])?; e.bin(st, BinOp::FAdd, w, &t, &a[2]) })? } else { return Err(Ctl::Unsup("fma".into())) } }
        "pow" | "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "powi" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" => {
            let w = w_of(e, rt); return Ok(Some(libm(e, &base, w, c, a)?));
        }
        "x86.sse42.crc32.32.8" => return Err(Ctl::Unsup(n.into())),
        _ => return Err(Ctl::Unsup(format!("intrinsic {}", n))),
    };
    Ok(Some(r))
}
fn is_ty_suffix(s: &str) -> bool {
    let s = if s.starts_with('v') && s.len() > 1 && s.as_bytes()[1].is_ascii_digit() { let t = s[1..].trim_start_matches(|c: char| c.is_ascii_digit()); t } else { s };
    let num = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
    (s.starts_with('i') && num(&s[1..])) || (s.starts_with('f') && num(&s[1..])) || (s.starts_with('p') && num(&s[1..]))
}
pub fn libm(e: &mut Engine, name: &str, w: u16, c: &CallI, a: &[Val]) -> R<Val> {
    if a.iter().all(|x| x.cv().is_some()) && w == 64 {
        let f = |k: usize| f64::from_bits(a[k].cv().unwrap() as u64);
        let r = match name { "pow" => f(0).powf(f(1)), "exp" => f(0).exp(), "exp2" => f(0).exp2(), "log" => f(0).ln(), "log2" => f(0).log2(), "log10" => f(0).log10(), "sin" => f(0).sin(), "cos" => f(0).cos(), "tan" => f(0).tan(), _ => f64::NAN };
        if !r.is_nan() { return Ok(Val::C(r.to_bits())); }
    }
    let x = { let w0 = e.m.types.bits(c.argtys[0]); e.ex(&a[0], w0) };
    let y = if a.len() > 1 { let w1 = e.m.types.bits(c.argtys[1]); e.ex(&a[1], w1) } else { NONE };
    let r = e.p.uf(&format!("{}{}", name.trim_end_matches('f'), w), w, x, y);
    Ok(e.mk(r))
}
pub fn memset(e: &mut Engine, st: &mut State, d: u64, v: &Val, len: u64) -> R<()> {
    e.ensure(st, d, len)?;
    match v.cv() {
        Some(b) => { let ng = e.ng; if let Ok((o, off)) = st.mem.get_mut(d, len, ng) { for x in &mut o.b[off..off + len as usize] { *x = b as u8; } if let Some(s) = &mut o.s { for x in &mut s[off..off + len as usize] { *x = CONC; } } } else { return Err(Ctl::Viol("write".into(), "memset to read-only memory".into())); } }
        None => { let w = match v { Val::S(x) => e.p.w(*x), _ => 8 }; let x = e.ex(v, w); let x = e.p.extract(x, 0, 8); let vv = Val::S(x); for k in 0..len { e.wr(st, d + k, 1, &vv)?; } }
    }
    Ok(())
}
fn cstr(e: &mut Engine, st: &mut State, p: &Val) -> R<String> {
    let a = e.addr(st, p, 1)?;
    let mut out = vec![];
    for k in 0..4096 { let v = e.rd(st, a + k, 1)?; let b = e.concretize(st, &v, 8)? as u8; if b == 0 { break; } out.push(b); }
    Ok(String::from_utf8_lossy(&out).into_owned())
}
fn rust_str(e: &mut Engine, st: &mut State, p: u64, n: u64) -> String {
    if n > 4096 { return String::new(); }
    match e.conc_bytes(st, p, n) { Some(b) => String::from_utf8_lossy(&b).into_owned(), None => "<symbolic>".into() }
}
/// Try to decode a core::panic::Location behind a pointer.
fn location(e: &mut Engine, st: &mut State, p: &Val) -> Option<String> {
    let a = p.cv()? as u64;
    let q = e.rd(st, a, 8).ok()?.cv()? as u64; let n = e.rd(st, a + 8, 8).ok()?.cv()? as u64; let l = e.rd(st, a + 16, 4).ok()?.cv()?; let c = e.rd(st, a + 20, 4).ok()?.cv()?;
    if n == 0 || n > 500 || l > 200000 { return None; }
    let s = rust_str(e, st, q, n);
    if s.is_empty() || s.contains('\0') { return None; }
    let s = s.rsplit("/library/").next().unwrap().to_string();
    Some(format!("{}:{}:{}", s.trim_end_matches('\0'), l, c))
}

pub fn call(e: &mut Engine, st: &mut State, x: Ext, id: u32, c: &CallI, a: &[Val]) -> R<Out> {
    if x == Ext::Panic {
        if st.panic_ok { e.st.panics_ok += 1; return Err(Ctl::Kill); }
        let n = e.m.globals[id as usize - 1].name.clone();
        let mut loc = None;
        for v in a.iter().rev() { if let Some(l) = location(e, st, v) { loc = Some(l); break; } }
        let mut msg = String::new();
        if a.len() >= 2 { if let (Some(p), Some(l)) = (a[0].cv(), a[1].cv()) { if l > 0 && l < 300 { let s = rust_str(e, st, p as u64, l as u64); if !s.is_empty() { msg = s; } } } }
        return Err(Ctl::Viol("panic".into(), format!("panic at {} {} {}", loc.unwrap_or_else(|| "?".into()), demangle(&n), msg)));
    }
    let k = match x { Ext::Named(k) => k, _ => unreachable!() };
    let name = NAMES.with(|v| v.borrow()[k as usize].clone());
    if name.starts_with("llvm.") { return Ok(Out::Ret(intrinsic(e, st, &name, c, a)?)); }
    *e.exts.entry(name.clone()).or_insert(0) += 1;
    let rw = w_of(e, c.ret);
    let ret = |v: u64| -> R<Out> { Ok(Out::Ret(Some(Val::C(if rw == 0 || rw >= 64 { v } else { v & ((1u64 << rw) - 1) })))) };
    let none = || -> R<Out> { Ok(Out::Ret(None)) };
    let argw = |e: &Engine, k: usize| w_of(e, c.argtys[k]);
    match name.as_str() {
        // ---------------------------------------------------------------- harness interface
        "symx_int" => {
            let w = e.concretize(st, &a[0], 32)? as u16;
            let v = e.new_var(st, w); let z = e.p.zext(v, 64); Ok(Out::Ret(Some(Val::S(z))))
        }
        "symx_i64" | "symx_u64" => { let v = e.new_var(st, 64); Ok(Out::Ret(Some(Val::S(v)))) }
        "symx_f64" => { let v = e.new_var(st, 64); Ok(Out::Ret(Some(Val::S(v)))) }
        "symx_f32" => { let v = e.new_var(st, 32); Ok(Out::Ret(Some(Val::S(v)))) }
        "symx_bool" => { let v = e.new_var(st, 1); let r = if rw > 1 { e.p.zext(v, rw) } else { v }; Ok(Out::Ret(Some(Val::S(r)))) }
        "symx_bytes" => {
            let n = e.concretize(st, &a[1], argw(e, 1))? as u64; let d = e.addr(st, &a[0], n)?;
            for k in 0..n { let v = e.new_var(st, 8); e.wr(st, d + k, 1, &Val::S(v))?; }
            none()
        }
        "symx_choose" => {
            let n = e.concretize(st, &a[0], argw(e, 0))? as u64;
            if n == 0 { return Err(Ctl::Kill); }
            let w = 32u16;
            if let Some(v) = crate::exec::force(st.inputs.len()) { e.new_var(st, w); return ret(v as u64); }
            // fork eagerly into n states
            for k in (1..n).rev() {
                let mut s2 = st.clone();
                let v = e.new_var(&mut s2, w);
                let vi = e.p.n(v).a; e.apply_model(&mut s2, &[(vi, k as u128)]);
                let kc = e.p.c(w, k as u128); let eq = e.p.eq(v, kc); e.add(&mut s2, eq); s2.depth += 1;
                e.finish_call(&mut s2, c.dst, c.next, Some(Val::C(k)))?;
                e.pending.push(s2);
            }
            let v = e.new_var(st, w);
            let vi = e.p.n(v).a; e.apply_model(st, &[(vi, 0)]);
            let kc = e.p.c(w, 0); let eq = e.p.eq(v, kc); e.add(st, eq);
            e.st.forks += n - 1;
            ret(0)
        }
        "symx_assume" => { let w = argw(e, 0); let v = e.ex(&a[0], w); let z = e.p.c(w, 0); let q = e.p.eq(v, z); let q = e.p.not(q); e.assume(st, q)?; none() }
        "symx_assert" => {
            e.st.asserts += 1;
            let w = argw(e, 0); let v = e.ex(&a[0], w); let z = e.p.c(w, 0); let bad = e.p.eq(v, z);
            let bad = e.simp(st, bad);
            match e.p.cv(bad) {
                Some(0) => return none(),
                Some(_) => { let m = cstr(e, st, &a[1])?; return Err(Ctl::Viol("assert".into(), m)); }
                None => {}
            }
            e.st.assert_queries += 1;
            if let Some(m) = e.refute(st, bad)? {
                let msg = cstr(e, st, &a[1])?;
                let mut s2 = st.clone(); e.apply_model(&mut s2, &m); e.add(&mut s2, bad);
                e.record(&s2, "assert".into(), msg);
                e.st.paths += 1;
                // continue with the assertion holding, if possible
                let ok = e.p.not(bad); e.assume(st, ok)?;
            }
            none()
        }
        "symx_reach" => { let k = e.concretize(st, &a[0], argw(e, 0))? as u64; *e.reach.entry(k).or_insert(0) += 1; none() }
        "symx_observe" => { let w = argw(e, 1); let v = e.ex(&a[1], w); let k = e.concretize(st, &a[0], argw(e, 0))? as u64; st.obs.push((k, v, w)); none() }
        "symx_concretize" => { let v = e.concretize(st, &a[0], argw(e, 0))? as u64; ret(v) }
        "symx_panic_ok" => { let v = e.concretize(st, &a[0], argw(e, 0))?; st.panic_ok = v != 0; none() }
        "symx_is_symbolic" => ret(1),
        "symx_arg" => { let k = e.concretize(st, &a[0], argw(e, 0))? as usize; ret(e.eargs.get(k).copied().unwrap_or(0)) }
        "symx_require" => { let w = argw(e, 0); let v = e.ex(&a[0], w); let v = e.p.extract(v, 0, 1); e.assume(st, v)?; none() }
        "symx_check" => {
            e.st.asserts += 1;
            let w = argw(e, 0); let v = e.ex(&a[0], w); let v = e.p.extract(v, 0, 1); let bad = e.p.not(v);
            let bad = e.simp(st, bad);
            let id = e.concretize(st, &a[1], argw(e, 1))? as u64;
            match e.p.cv(bad) { Some(0) => return none(), Some(_) => return Err(Ctl::Viol("assert".into(), format!("check {}", id))), None => {} }
            e.st.assert_queries += 1;
            if std::env::var("SYMX_DIFF").is_ok() { let n = e.p.n(v); if n.op == Op::Eq { e.p.diff(n.a, n.b); } else { eprintln!("NOEQ {}", e.p.show(v)) } }
            if let Some(m) = e.refute(st, bad)? {
                let mut s2 = st.clone(); e.apply_model(&mut s2, &m); e.add(&mut s2, bad);
                e.record(&s2, "assert".into(), format!("check {}", id));
                e.st.paths += 1;
                let ok = e.p.not(bad); e.assume(st, ok)?;
            }
            none()
        }
        "llrt_panic" => {
            if st.panic_ok { e.st.panics_ok += 1; return Err(Ctl::Kill); }
            let mut m = String::new();
            if a.len() >= 2 { if let (Some(p), Some(l)) = (a[0].cv(), a[1].cv()) { if l > 0 && l < 300 { m = rust_str(e, st, p as u64, l as u64); } } }
            Err(Ctl::Viol("panic".into(), format!("panic: {}", m)))
        }
        "symx_fail" => { let m = cstr(e, st, &a[0])?; Err(Ctl::Viol("assert".into(), m)) }
        // cooperative threads: a function started on its own call stack, and switching to a stack
        "symx_spawn" => {
            let t = e.concretize(st, &a[0], 64)? as u64; let id = (t >> 32) as u32;
            let f = e.m.func(id).map_err(Ctl::Unsup)?;
            let mine = std::mem::take(&mut st.frames);
            let r = e.push_frame(st, f, vec![a[1].clone()], u32::MAX, None);
            let new = std::mem::replace(&mut st.frames, mine); r?;
            st.threads.push(new); ret(st.threads.len() as u64 - 1)
        }
        "symx_switch" => {
            let k = e.concretize(st, &a[0], argw(e, 0))? as usize;
            e.finish_call(st, c.dst, c.next, None)?;
            if k != st.cur {
                if k >= st.threads.len() || st.threads[k].is_empty() { return Err(Ctl::Unsup("switch to a thread that is not there".into())); }
                let new = std::mem::take(&mut st.threads[k]);
                let old = std::mem::replace(&mut st.frames, new);
                let cur = st.cur; st.threads[cur] = old; st.cur = k;
            }
            Ok(Out::Entered)
        }
        "symx_done" => Err(Ctl::Done),
        "symx_kill" => Err(Ctl::Kill),
        "symx_print" => { let n = e.concretize(st, &a[1], argw(e, 1))? as u64; let d = e.addr(st, &a[0], n)?; let b = e.conc_bytes(st, d, n); eprintln!("[print] {}", b.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or("<symbolic>".into())); none() }
        "symx_print_val" => { let w = argw(e, 0); let v = e.ex(&a[0], w); let x = e.eval(st, v); eprintln!("[val] {} = {:#x}", e.p.show(v), x); none() }
        // ---------------------------------------------------------------- memory
        "malloc" | "GC_malloc" | "GC_malloc_atomic" | "GC_malloc_uncollectable" | "_Znwm" | "aligned_alloc" | "valloc" => {
            let i = if name == "aligned_alloc" { 1 } else { 0 };
            let n = e.concretize(st, &a[i], 64)? as u64;
            if n > 1 << 30 { return ret(0); }
            let gc = name.starts_with("GC");
            ret(st.mem.alloc(n as usize, if gc { 0 } else { 0xA5 }, if gc { Kind::Gc } else { Kind::Heap }))
        }
        "GC_init" | "GC_gcollect" | "GC_register_finalizer" => { none() }
        "calloc" => { let n = e.concretize(st, &a[0], 64)? as u64; let m = e.concretize(st, &a[1], 64)? as u64; if n.checked_mul(m).map(|x| x > 1 << 30).unwrap_or(true) { return ret(0); } ret(st.mem.alloc((n * m) as usize, 0, Kind::Heap)) }
        "posix_memalign" => { let n = e.concretize(st, &a[2], 64)? as u64; let d = e.addr(st, &a[0], 8)?; if n > 1 << 30 { return ret(12); } let p = st.mem.alloc(n as usize, 0xA5, Kind::Heap); e.wr(st, d, 8, &Val::C(p))?; ret(0) }
        "realloc" | "GC_realloc" => {
            let p = e.concretize(st, &a[0], 64)? as u64; let n = e.concretize(st, &a[1], 64)? as u64;
            if n > 1 << 30 { return ret(0); }
            let gc = name == "GC_realloc";
            let q = st.mem.alloc(n as usize, if gc { 0 } else { 0xA5 }, if gc { Kind::Gc } else { Kind::Heap });
            if p != 0 {
                let old = match st.mem.get(p, 0, e.ng) { Ok((o, _)) => o.b.len() as u64, Err(_) => return Err(Ctl::Viol("bad-realloc".into(), format!("realloc of invalid pointer {:#x}", p))) };
                e.copy(st, q, p, old.min(n))?;
                if !gc { st.mem.live_heap -= 1; }
                *st.mem.slot_mut((p >> 32) as u32) = Slot::Freed;
            }
            ret(q)
        }
        "free" | "_ZdlPv" | "GC_free" => {
            let p = e.concretize(st, &a[0], 64)? as u64;
            if p == 0 { return none(); }
            let ng = e.ng;
            match st.mem.get(p, 0, ng) {
                Ok((o, _)) => { if o.kind != Kind::Heap && o.kind != Kind::Gc { return Err(Ctl::Viol("bad-free".into(), "free of non-heap memory".into())); } if p as u32 != 0 { return Err(Ctl::Viol("bad-free".into(), "free of interior pointer".into())); } }
                Err(MErr::Uaf(_)) => return Err(Ctl::Viol("double-free".into(), "double free".into())),
                Err(_) => return Err(Ctl::Viol("bad-free".into(), format!("free of invalid pointer {:#x}", p))),
            }
            st.mem.live_heap = st.mem.live_heap.wrapping_sub(1);
            *st.mem.slot_mut((p >> 32) as u32) = Slot::Freed;
            none()
        }
        "memcpy" | "memmove" => { let n = e.concretize(st, &a[2], 64)? as u64; if n > 0 { let d = e.addr(st, &a[0], n)?; let s = e.addr(st, &a[1], n)?; e.copy(st, d, s, n)?; } Ok(Out::Ret(Some(a[0].clone()))) }
        "memset" => { let n = e.concretize(st, &a[2], 64)? as u64; if n > 0 { let d = e.addr(st, &a[0], n)?; let v = match &a[1] { Val::S(x) => { let y = e.p.extract(*x, 0, 8); e.mk(y) } v => Val::C(v.cv().unwrap() as u64 & 255) }; memset(e, st, d, &v, n)?; } Ok(Out::Ret(Some(a[0].clone()))) }
        "memcmp" | "bcmp" => {
            let n = e.concretize(st, &a[2], 64)? as u64;
            if n == 0 { return ret(0); }
            let p = e.addr(st, &a[0], n)?; let q = e.addr(st, &a[1], n)?;
            let x = e.bytes(st, p, n)?; let y = e.bytes(st, q, n)?;
            if name == "bcmp" {
                let mut eq = e.p.tru();
                for k in 0..n as usize { let c = e.p.eq(x[k], y[k]); eq = e.p.and1(eq, c); }
                let ne = e.p.not(eq); let r = e.p.zext(ne, 32); return Ok(Out::Ret(Some(e.mk(r))));
            }
            let mut r = e.p.c(32, 0);
            for k in (0..n as usize).rev() { let c = e.p.eq(x[k], y[k]); let (xx, yy) = (e.p.zext(x[k], 32), e.p.zext(y[k], 32)); let d = e.p.bin(Op::Sub, xx, yy); r = e.p.ite(c, r, d); }
            Ok(Out::Ret(Some(e.mk(r))))
        }
        "strlen" | "strnlen" => {
            let lim = if name == "strnlen" { e.concretize(st, &a[1], 64)? as u64 } else { u64::MAX };
            let p = e.addr(st, &a[0], if lim == 0 { 0 } else { 1 })?;
            let mut k = 0;
            while k < lim { let v = e.rd(st, p + k, 1)?; let z = match v { Val::S(x) => { let c0 = e.p.c(8, 0); let q = e.p.eq(x, c0); e.branch(st, q)? } v => v.cv() == Some(0) }; if z { break; } k += 1; }
            ret(k)
        }
        "memchr" | "memrchr" => {
            let n = e.concretize(st, &a[2], 64)? as u64;
            if n == 0 { return ret(0); }
            let p = e.addr(st, &a[0], n)?; let cw = argw(e, 1); let ch = e.ex(&a[1], cw); let ch = e.p.extract(ch, 0, 8);
            let bs = e.bytes(st, p, n)?;
            let order: Vec<usize> = if name == "memchr" { (0..n as usize).collect() } else { (0..n as usize).rev().collect() };
            for k in order { let q = e.p.eq(bs[k], ch); if e.branch(st, q)? { return ret(p + k as u64); } }
            ret(0)
        }
        // ---------------------------------------------------------------- libc odds and ends
        "write" | "read" if a.len() == 3 && name == "write" => { let n = e.concretize(st, &a[2], 64)? as u64; if std::env::var("SYMX_OUT").is_ok() { let d = e.addr(st, &a[1], n)?; let b = e.conc_bytes(st, d, n).unwrap_or_default(); eprint!("{}", String::from_utf8_lossy(&b)); } ret(n) }
        "writev" => { let n = e.concretize(st, &a[2], 32)? as u64; let p = e.addr(st, &a[1], 16 * n)?; let mut t = 0; for k in 0..n { let l = e.rd(st, p + 16 * k + 8, 8)?; t += e.concretize(st, &l, 64)? as u64; } ret(t) }
        "getenv" | "secure_getenv" => ret(0),
        "getcwd" => { let d = if let Val::C(0) = a[0] { st.mem.alloc(2, 0, Kind::Heap) } else { e.addr(st, &a[0], 2)? }; e.wr(st, d, 1, &Val::C(b'/' as u64))?; e.wr(st, d + 1, 1, &Val::C(0))?; ret(d) }
        "getpid" | "gettid" => ret(4242),
        // a clock that stands still
        "clock_gettime" => { let d = e.addr(st, &a[1], 16)?; e.wr(st, d, 8, &Val::C(100))?; e.wr(st, d + 8, 8, &Val::C(0))?; ret(0) }
        "syscall" | "getrandom" => {
            // getrandom: fixed bytes (hash seeds)
            let off = if name == "syscall" { let nr = e.concretize(st, &a[0], 64)?; if nr != 318 { return Err(Ctl::Unsup(format!("syscall {}", nr))); } 1 } else { 0 };
            let n = e.concretize(st, &a[off + 1], 64)? as u64; let d = e.addr(st, &a[off], n)?;
            for k in 0..n { e.wr(st, d + k, 1, &Val::C((k * 37 + 11) & 255))?; }
            ret(n)
        }
        "__errno_location" => {
            let key = 0xE44;
            let p = match st.cells.get(&key) { Some(p) => *p, None => { let p = st.mem.alloc(4, 0, Kind::Foreign); st.cells.insert(key, p); p } };
            ret(p)
        }
        "abort" | "_exit" | "exit" | "__assert_fail" => {
            if name.ends_with("exit") { let w = argw(e, 0); let v = e.concretize(st, &a[0], w)?; if v == 0 { return Err(Ctl::Done); } }
            if st.panic_ok { e.st.panics_ok += 1; return Err(Ctl::Kill); }
            Err(Ctl::Viol("abort".into(), format!("{} called", name)))
        }
        "pthread_self" => ret(1),
        "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy" | "pthread_key_create" | "pthread_setspecific" | "sigaction" | "signal" | "sigaltstack" | "__cxa_atexit" | "__cxa_thread_atexit_impl" | "atexit" | "pthread_mutexattr_init" | "sched_yield" | "fflush" => ret(0),
        "pthread_getspecific" => ret(0),
        "sysconf" => ret(4096),
        "pow" | "exp" | "log" | "log10" | "log2" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" | "exp2" | "fmod" | "powf" | "expf" | "logf" | "sinf" | "cosf" | "tanf" | "asinf" | "acosf" | "atanf" | "atan2f" => { let v = libm(e, &name, rw, c, a)?; Ok(Out::Ret(Some(v))) }
        "sqrt" | "sqrtf" => { let x = e.ex(&a[0], rw); let r = e.p.fp(Op::FSqrt, rw, x, NONE, 0); Ok(Out::Ret(Some(e.mk(r)))) }
        "floor" | "floorf" | "ceil" | "ceilf" | "trunc" | "truncf" | "round" | "roundf" | "rint" | "nearbyint" => { let m = match name.trim_end_matches('f') { "ceil" => 1, "floor" | "floo" => 2, "trunc" => 3, "round" => 4, _ => 0 }; let m = if name.starts_with("floor") { 2 } else { m }; let x = e.ex(&a[0], rw); let r = e.p.fp(Op::FRound, rw, x, NONE, m); Ok(Out::Ret(Some(e.mk(r)))) }
        "fabs" => { let r = e.bin(st, BinOp::And, rw, &a[0], &Val::c(mask(rw - 1)))?; Ok(Out::Ret(Some(r))) }
        _ => Err(Ctl::Unsup(format!("external function {}", name))),
    }
}
