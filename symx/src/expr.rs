//! Hash-consed bit-vector expression DAG with local simplification.
//! Every expression has a width in 1..=128 (booleans are width 1).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    // floating point; operands are IEEE bit patterns of width 32/64
    FAdd, FSub, FMul, FDiv, FRem, FSqrt,
    FEq, FLt, FLe, // ordered comparisons
    FIsNan,
    FToF, // width change
    FToSI, FToUI, SIToF, UIToF,
    FRound, // c = mode 0 nearest-even, 1 ceil(+inf), 2 floor, 3 trunc, 4 away
    Uf, // c = function id, args a, b (b may be u32::MAX)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub const NONE: u32 = u32::MAX;

pub struct Pool {
    pub nodes: Vec<Node>,
    tab: FxMap<Node, Ex>,
    pub consts: Vec<u128>,
    ctab: FxMap<(u16, u64, u64), Ex>,
    pub nvars: u32,
    // memo
    vars: Vec<std::rc::Rc<[u32]>>, // per node variable set (sorted)
    empty: std::rc::Rc<[u32]>,
    ev: Vec<(u32, u128)>,
    epoch: u32,
    rng: Vec<(u128, u128)>,
    pub ufs: Vec<String>,
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: vec![], tab: Default::default(), consts: vec![], ctab: Default::default(), nvars: 0,
            vars: vec![], empty: Vec::new().into(), ev: vec![], epoch: 0, rng: vec![], ufs: vec![] }
    }
    #[inline] pub fn n(&self, e: Ex) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn cv(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn c(&mut self, w: u16, v: u128) -> Ex {
        let v = v & mask(w);
        let key = (w, v as u64, (v >> 64) as u64);
        if let Some(&e) = self.ctab.get(&key) { return e; }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.push(Node { op: Op::Const, w, a: i, b: 0, c: 0 });
        self.ctab.insert(key, e);
        e
    }
    fn push(&mut self, n: Node) -> Ex {
        let e = self.nodes.len() as u32;
        let vs = match n.op {
            Op::Const => self.empty.clone(),
            Op::Var => vec![n.a].into(),
            _ => {
                let mut cur: Option<std::rc::Rc<[u32]>> = None;
                for k in self.kids(&n).into_iter().flatten() {
                    let v = self.vars[k as usize].clone();
                    if v.is_empty() { continue; }
                    cur = Some(match cur {
                        None => v,
                        Some(c) => {
                            if std::rc::Rc::ptr_eq(&c, &v) || subset(&v, &c) { c }
                            else if subset(&c, &v) { v }
                            else { let mut m: Vec<u32> = c.iter().chain(v.iter()).copied().collect(); m.sort_unstable(); m.dedup(); m.into() }
                        }
                    });
                }
                cur.unwrap_or_else(|| self.empty.clone())
            }
        };
        let r = self.compute_range(&n);
        self.nodes.push(n);
        self.vars.push(vs);
        self.rng.push(r);
        self.ev.push((0, 0));
        e
    }
    pub fn kids(&self, n: &Node) -> [Option<Ex>; 3] {
        match n.op {
            Op::Const | Op::Var => [None; 3],
            Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::FIsNan | Op::FToF | Op::FToSI | Op::FToUI
            | Op::SIToF | Op::UIToF | Op::FRound => [Some(n.a), None, None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            Op::Uf => [Some(n.a), if n.b == NONE { None } else { Some(n.b) }, None],
            _ => [Some(n.a), Some(n.b), None],
        }
    }
    pub fn vars_of(&self, e: Ex) -> std::rc::Rc<[u32]> { self.vars[e as usize].clone() }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> Ex {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.tab.get(&n) { return e; }
        let e = self.push(n);
        self.tab.insert(n, e);
        e
    }
    pub fn var(&mut self, w: u16) -> Ex {
        let i = self.nvars;
        self.nvars += 1;
        self.push(Node { op: Op::Var, w, a: i, b: 0, c: 0 })
    }
    #[inline] pub fn range(&self, e: Ex) -> (u128, u128) { self.rng[e as usize] }
    fn compute_range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |e: Ex| self.rng[e as usize];
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; (v, v) }
            Op::Add => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => (0, m) } }
            Op::Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) } }
            Op::Mul => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) } }
            Op::UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) } }
            Op::URem => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (0, (b.1 - 1).min(a.1)) } else { (0, m) } }
            Op::And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
            Op::Or | Op::Xor => { let (a, b) = (r(n.a), r(n.b)); let x = a.1 | b.1; let h = if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u16) };
                (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, h) }
            Op::LShr => { let (a, b) = (r(n.a), r(n.b)); if b.0 >= n.w as u128 { (0, 0) } else { (if b.1 >= n.w as u128 {0} else {a.0 >> b.1}, a.1 >> b.0) } }
            Op::Shl => { let (a, b) = (r(n.a), r(n.b)); if b.0 == b.1 && b.0 < n.w as u128 && a.1 <= (m >> b.0) { (a.0 << b.0, a.1 << b.0) } else { (0, m) } }
            Op::Concat => { let (a, b) = (r(n.a), r(n.b)); let wb = self.w(n.b) as u32; ((a.0 << wb) | b.0, (a.1 << wb) | b.1) }
            Op::ZExt => r(n.a),
            Op::Extract => { let a = r(n.a); if n.c == 0 && a.1 <= m { a } else if n.c != 0 && (a.1 >> n.c) <= m { (a.0 >> n.c, a.1 >> n.c) } else { (0, m) } }
            Op::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::SExt => { let a = r(n.a); let aw = self.w(n.a); if a.1 < (1u128 << (aw - 1)) { a } else { (0, m) } }
            _ => (0, m),
        }
    }
    /// number of known-zero low bits
    pub fn tz(&self, e: Ex) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; if v == 0 { n.w as u32 } else { v.trailing_zeros() } }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::Shl => match self.cv(n.b) { Some(s) => (self.tz(n.a) as u128 + s).min(n.w as u128) as u32, None => self.tz(n.a) },
            Op::Concat => { let t = self.tz(n.b); if t == self.w(n.b) as u32 { t + self.tz(n.a) } else { t } }
            Op::ZExt | Op::SExt => { let t = self.tz(n.a); if t == self.w(n.a) as u32 { n.w as u32 } else { t } }
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let m = self.c(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Op::And, a, b) }
    pub fn tru(&mut self) -> Ex { self.c(1, 1) }
    pub fn fls(&mut self) -> Ex { self.c(1, 0) }

    fn addends(&self, e: Ex, out: &mut Vec<Ex>) -> bool {
        let n = self.n(e);
        if n.op == Op::Add { return self.addends(n.a, out) && self.addends(n.b, out); }
        out.push(e);
        out.len() <= 12
    }
    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = fold(op, w, x, y); return self.c(w, v); }
        // constants to the right for commutative ops
        if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (ca, cb) = (self.cv(a), self.cv(b));
        let m = mask(w);
        let (na, nb) = (self.n(a), self.n(b));
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(y) = cb {
                    if na.op == Add { if let Some(x) = self.cv(na.b) { let k = self.c(w, x.wrapping_add(y)); return self.bin(Add, na.a, k); } }
                    if na.op == Sub { if let Some(x) = self.cv(na.a) { let k = self.c(w, x.wrapping_add(y)); return self.bin(Sub, k, na.b); } }
                }
                // pull constants out
                if na.op == Add && cb.is_none() { if self.cv(na.b).is_some() { let t = self.bin(Add, na.a, b); return self.bin(Add, t, na.b); } }
                if nb.op == Add && cb.is_none() { if self.cv(nb.b).is_some() { let t = self.bin(Add, a, nb.a); return self.bin(Add, t, nb.b); } }
                if na.op == Sub && na.b == b { return na.a; }
                if nb.op == Sub && nb.b == a { return nb.a; }
                // sums associate to the left in the order of their terms
                if cb.is_none() && (nb.op == Add || (na.op == Add && na.b > b)) {
                    let mut ts = vec![];
                    if self.addends(a, &mut ts) && self.addends(b, &mut ts) {
                        ts.sort();
                        let mut r = ts[0];
                        for t in &ts[1..] { r = self.mk(Add, w, r, *t, 0); }
                        return r;
                    }
                }
            }
            Sub => {
                if a == b { return self.c(w, 0); }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(y) = cb { let k = self.c(w, (!y).wrapping_add(1)); return self.bin(Add, a, k); }
                if na.op == Add { if na.a == b { return na.b; } if na.b == b { return na.a; }
                    if self.cv(na.b).is_some() { let t = self.bin(Sub, na.a, b); return self.bin(Add, t, na.b); } }
                if nb.op == Add { if nb.a == a { let z = self.c(w, 0); return self.bin(Sub, z, nb.b); }
                    if let Some(k) = self.cv(nb.b) { let t = self.bin(Sub, a, nb.a); let k = self.c(w, (!k).wrapping_add(1)); return self.bin(Add, t, k); } }
            }
            Mul => {
                match cb { Some(0) => return b, Some(1) => return a, _ => {} }
                if w == 1 { return self.bin(And, a, b); }
                if let Some(y) = cb { if na.op == Mul { if let Some(x) = self.cv(na.b) { let k = self.c(w, x.wrapping_mul(y)); return self.bin(Mul, na.a, k); } } }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(r) = self.narrow_div(op, a, b) { return r; }
                if let Some(y) = cb { if na.op == UDiv { if let Some(x) = self.cv(na.b) { if x != 0 && y != 0 { return match x.checked_mul(y) { Some(k) if k <= m => { let k = self.c(w, k); self.bin(UDiv, na.a, k) } _ => self.c(w, 0) }; } } } }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.bin(LShr, a, k); }
                    if y != 0 && self.range(a).1 < y { return self.c(w, 0); } }
            }
            URem => {
                if cb == Some(1) { return self.c(w, 0); }
                if let Some(r) = self.narrow_div(op, a, b) { return r; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y - 1); return self.bin(And, a, k); }
                    if y != 0 && self.range(a).1 < y { return a; } }
            }
            SDiv | SRem => {
                if cb == Some(1) { return if op == SDiv { a } else { self.c(w, 0) }; }
                let h = 1u128 << (w - 1);
                if self.range(a).1 < h && self.range(b).1 < h { return self.bin(if op == SDiv { UDiv } else { URem }, a, b); }
                if let Some(y) = cb {
                    if op == SDiv && na.op == SDiv { if let Some(x) = self.cv(na.b) { if x < h && y < h && x > 0 && y > 0 { match x.checked_mul(y) { Some(k) if k < h => { let k = self.c(w, k); return self.bin(SDiv, na.a, k); } Some(k) if k == h => {} _ => return self.c(w, 0) } } } }
                }
            }
            And => {
                if a == b { return a; }
                match cb { Some(0) => return b, Some(y) if y == m => return a, _ => {} }
                if let Some(y) = cb {
                    if na.op == And { if let Some(x) = self.cv(na.b) { let k = self.c(w, x & y); return self.bin(And, na.a, k); } }
                    // low mask
                    if y & (y + 1) == 0 {
                        if self.range(a).1 <= y { return a; }
                        let lw = (128 - y.leading_zeros()) as u16;
                        let t = self.extract(a, 0, lw);
                        return self.zext(t, w);
                    }
                    // contiguous mask not starting at 0
                    let t0 = y.trailing_zeros();
                    let yy = y >> t0;
                    if yy & (yy + 1) == 0 {
                        let lw = (128 - yy.leading_zeros()) as u16;
                        let t = self.extract(a, t0 as u16, lw);
                        let z = self.c(t0 as u16, 0);
                        let t = self.concat(t, z);
                        return self.zext(t, w);
                    }
                }
                if w == 1 {
                    let nota = self.not(a); if nota == b { return self.c(1, 0); }
                    if nb.op == And && (nb.a == a || nb.b == a) { return b; }
                    if na.op == And && (na.a == b || na.b == b) { return a; }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(And, na.a, nb.a); return self.zext(t, w); }
            }
            Or => {
                if a == b { return a; }
                match cb { Some(0) => return a, Some(y) if y == m => return b, _ => {} }
                if let Some(y) = cb { if na.op == Or { if let Some(x) = self.cv(na.b) { let k = self.c(w, x | y); return self.bin(Or, na.a, k); } } }
                if w == 1 {
                    let nota = self.not(a); if nota == b { return self.c(1, 1); }
                    if nb.op == Or && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Or && (na.a == b || na.b == b) { return a; }
                }
                if let Some(r) = self.or_disjoint(a, b) { return r; }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(Or, na.a, nb.a); return self.zext(t, w); }
            }
            Xor => {
                if a == b { return self.c(w, 0); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if na.op == Xor { if let Some(x) = self.cv(na.b) { let k = self.c(w, x ^ y); return self.bin(Xor, na.a, k); } }
                    if w == 1 {
                        // y == 1: negate comparison
                        match na.op { Ult => return self.cmp(Ule, na.b, na.a), Ule => return self.cmp(Ult, na.b, na.a),
                            Slt => return self.cmp(Sle, na.b, na.a), Sle => return self.cmp(Slt, na.b, na.a), _ => {} }
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(Xor, na.a, nb.a); return self.zext(t, w); }
                if na.op == Xor && (na.a == b) { return na.b; }
                if na.op == Xor && (na.b == b) { return na.a; }
                if nb.op == Xor && (nb.a == a) { return nb.b; }
                if nb.op == Xor && (nb.b == a) { return nb.a; }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.c(w, 0); }
                    let y = y as u16;
                    let t = self.extract(a, 0, w - y);
                    let z = self.c(y, 0);
                    return self.concat(t, z);
                }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.c(w, 0); }
                    let y = y as u16;
                    let t = self.extract(a, y, w - y);
                    return self.zext(t, w);
                }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(y) = cb {
                    let y = y.min(w as u128 - 1) as u16;
                    let t = self.extract(a, y, w - y);
                    return self.sext(t, w);
                }
            }
            _ => {}
        }
        // distribute over ite with constant branches when other side constant
        if let Some(_) = cb {
            if na.op == Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                let t = self.bin(op, na.b, b);
                let e = self.bin(op, na.c, b);
                return self.ite(na.a, t, e);
            }
        }
        self.mk(op, w, a, b, 0)
    }
    /// division at the smallest width (a multiple of 8) that holds both operands
    fn narrow_div(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let h = self.range(a).1.max(self.range(b).1);
        if self.range(b).0 == 0 { return None; }
        let need = ((128 - h.leading_zeros()) as u16 + 7) / 8 * 8;
        if need == 0 || need >= w { return None; }
        let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
        let r = self.bin(op, x, y);
        Some(self.zext(r, w))
    }
    /// a|b where one is shifted left and the other fits below
    fn or_disjoint(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        for (hi, lo) in [(a, b), (b, a)] {
            let t = self.tz(hi);
            if t == 0 || t >= w as u32 { continue; }
            if self.range(lo).1 >> t == 0 {
                let h = self.extract(hi, t as u16, w - t as u16);
                let l = self.extract(lo, 0, t as u16);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn cmp(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op { Eq => x == y, Ult => x < y, Ule => x <= y, Slt => sx(x, w) < sx(y, w), Sle => sx(x, w) <= sx(y, w), _ => unreachable!() };
            return self.c(1, r as u128);
        }
        if a == b { return self.c(1, matches!(op, Eq | Ule | Sle) as u128); }
        let (ra, rb) = (self.range(a), self.range(b));
        match op {
            Eq => {
                if ra.1 < rb.0 || rb.1 < ra.0 { return self.c(1, 0); }
                let (mut a, mut b) = (a, b);
                if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
                let (na, nb) = (self.n(a), self.n(b));
                if w == 1 {
                    if let Some(y) = self.cv(b) { return if y == 1 { a } else { self.not(a) }; }
                    let x = self.bin(Xor, a, b);
                    return self.not(x);
                }
                if let Some(y) = self.cv(b) {
                    match na.op {
                        ZExt => { let iw = self.w(na.a); let k = self.c(iw, y); return self.cmp(Eq, na.a, k); }
                        SExt => { let iw = self.w(na.a); if (sx(y & mask(iw), iw) as u128 & mask(w)) != y { return self.c(1, 0); } let k = self.c(iw, y); return self.cmp(Eq, na.a, k); }
                        Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kh = self.c(wh, y >> wl); let kl = self.c(wl, y);
                            let h = self.cmp(Eq, na.a, kh);
                            if self.cv(h) == Some(0) { return h; }
                            let l = self.cmp(Eq, na.b, kl);
                            return self.bin(And, h, l);
                        }
                        Add => { if let Some(x) = self.cv(na.b) { let k = self.c(w, y.wrapping_sub(x)); return self.cmp(Eq, na.a, k); } }
                        Xor => { if let Some(x) = self.cv(na.b) { let k = self.c(w, y ^ x); return self.cmp(Eq, na.a, k); } if y == 0 { return self.cmp(Eq, na.a, na.b); } }
                        Sub => { if y == 0 { return self.cmp(Eq, na.a, na.b); } if let Some(x) = self.cv(na.a) { let k = self.c(w, x.wrapping_sub(y)); return self.cmp(Eq, na.b, k); } }
                        UDiv => if let Some(d) = self.cv(na.b) { if d != 0 {
                            // a/d == y  <=>  y*d <= a < (y+1)*d
                            let lo = match y.checked_mul(d) { Some(l) if l <= mask(w) => l, _ => return self.c(1, 0) };
                            let l = self.c(w, lo); let c1 = self.cmp(Ule, l, na.a);
                            let c2 = match (y + 1).checked_mul(d) { Some(h) if h <= mask(w) => { let h = self.c(w, h); self.cmp(Ult, na.a, h) } _ => self.c(1, 1) };
                            return self.bin(And, c1, c2);
                        } }
                        Ite => {
                            let (ct, ce) = (self.cv(na.b), self.cv(na.c));
                            if ct.is_some() || ce.is_some() {
                                let t = self.cmp(Eq, na.b, b);
                                let e = self.cmp(Eq, na.c, b);
                                return self.ite(na.a, t, e);
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == ZExt && nb.op == ZExt {
                    let (x, y) = (self.w(na.a), self.w(nb.a));
                    if x == y { return self.cmp(Eq, na.a, nb.a); }
                    let m = x.max(y);
                    let p = self.zext(na.a, m); let q = self.zext(nb.a, m);
                    return self.cmp(Eq, p, q);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) { return self.cmp(Eq, na.a, nb.a); }
                if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.cmp(Eq, na.a, nb.a);
                    let l = self.cmp(Eq, na.b, nb.b);
                    return self.bin(And, h, l);
                }
                if na.op == Add && nb.op == Add && na.b == nb.b { return self.cmp(Eq, na.a, nb.a); }
                return self.mk(Eq, 1, a, b, 0);
            }
            Ult => {
                if ra.1 < rb.0 { return self.c(1, 1); }
                if ra.0 >= rb.1 { return self.c(1, 0); }
                if cb == Some(1) { let z = self.c(w, 0); return self.cmp(Eq, a, z); }
                if ca == Some(0) { let z = self.c(w, 0); let e = self.cmp(Eq, b, z); return self.not(e); }
            }
            Ule => {
                if ra.1 <= rb.0 { return self.c(1, 1); }
                if ra.0 > rb.1 { return self.c(1, 0); }
                if cb == Some(0) { return self.cmp(Eq, a, b); }
                if let Some(y) = cb { let k = self.c(w, y + 1); return self.cmp(Ult, a, k); }
                if let Some(x) = ca { let k = self.c(w, x - 1); return self.cmp(Ult, k, b); }
            }
            Slt | Sle => {
                let h = 1u128 << (w - 1);
                if ra.1 < h && rb.1 < h { return self.cmp(if op == Slt { Ult } else { Ule }, a, b); }
                if ra.0 >= h && rb.0 >= h { return self.cmp(if op == Slt { Ult } else { Ule }, a, b); }
                if ra.0 >= h && rb.1 < h { return self.c(1, 1); }
                if ra.1 < h && rb.0 >= h { return self.c(1, 0); }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) { return self.cmp(op, na.a, nb.a); }
                if na.op == SExt { if let Some(y) = cb { let iw = self.w(na.a); if (sx(y & mask(iw), iw) as u128 & mask(w)) == y { let k = self.c(iw, y); return self.cmp(op, na.a, k); } } }
                if nb.op == SExt { if let Some(y) = ca { let iw = self.w(nb.a); if (sx(y & mask(iw), iw) as u128 & mask(w)) == y { let k = self.c(iw, y); return self.cmp(op, k, nb.a); } } }
                // sign test
                if op == Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Slt && ca == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s); }
                if op == Sle && ca == Some(0) { let s = self.extract(b, w - 1, 1); return self.not(s); }
            }
            _ => unreachable!(),
        }
        let (na, nb) = (self.n(a), self.n(b));
        if op == Ult {
            if na.op == UDiv { if let (Some(d), Some(k)) = (self.cv(na.b), cb) { if d != 0 { return match k.checked_mul(d) { Some(h) if h <= mask(w) => { let h = self.c(w, h); self.cmp(Ult, na.a, h) } _ => self.c(1, 1) }; } } }
            if nb.op == UDiv { if let (Some(d), Some(k)) = (self.cv(nb.b), ca) { if d != 0 { return match (k + 1).checked_mul(d) { Some(h) if h <= mask(w) => { let h = self.c(w, h); self.cmp(Ule, h, nb.a) } _ => self.c(1, 0) }; } } }
        }
        if matches!(op, Ult | Ule) {
            if na.op == ZExt && nb.op == ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                let p = self.zext(na.a, m); let q = self.zext(nb.a, m);
                return self.cmp(op, p, q);
            }
            if na.op == ZExt { if let Some(y) = cb { let iw = self.w(na.a); if y <= mask(iw) { let k = self.c(iw, y); return self.cmp(op, na.a, k); } } }
            if nb.op == ZExt { if let Some(y) = ca { let iw = self.w(nb.a); if y <= mask(iw) { let k = self.c(iw, y); return self.cmp(op, k, nb.a); } } }
        }
        if na.op == Ite && cb.is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
            let t = self.cmp(op, na.b, b); let e = self.cmp(op, na.c, b); return self.ite(na.a, t, e);
        }
        if nb.op == Ite && ca.is_some() && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() {
            let t = self.cmp(op, a, nb.b); let e = self.cmp(op, a, nb.c); return self.ite(nb.a, t, e);
        }
        self.mk(op, 1, a, b, 0)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex { self.cmp(Op::Eq, a, b) }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex { let e = self.cmp(Op::Eq, a, b); self.not(e) }
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w && w > 0);
        if w == n.w { return a; }
        if let Some(v) = self.cv(a) { return self.c(w, v >> lo); }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.c as u16, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.c(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let t = self.extract(n.a, lo, iw - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let t = self.extract(n.a, lo, iw - lo); return self.sext(t, w); }
                let t = self.extract(n.a, iw - 1, 1); return self.sext(t, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if self.range(a).1 >> lo == 0 { return self.c(w, 0); }
        self.mk(Op::Extract, w, a, 0, lo as u32)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "expression wider than 128 bits");
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.c(w, (x << wl) | y); }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.c + wl as u32 {
            return self.extract(nh.a, nl.c as u16, w);
        }
        if nh.op == Op::Extract && nh.a == l && nh.c == wl as u32 { /* cannot happen */ }
        // (x[hi] : (x[lo] : y))
        if nl.op == Op::Concat { let t = self.n(nl.a);
            if nh.op == Op::Extract && t.op == Op::Extract && nh.a == t.a && nh.c == t.c + self.w(nl.a) as u32 {
                let j = self.extract(nh.a, t.c as u16, wh + self.w(nl.a)); return self.concat(j, nl.b);
            }
            if self.cv(h).is_some() && self.cv(nl.a).is_some() { let j = self.concat(h, nl.a); return self.concat(j, nl.b); }
        }
        // normalise to right-nested form
        if nh.op == Op::Concat { let t = self.concat(nh.b, l); return self.concat(nh.a, t); }
        if nh.op == Op::ZExt { let ze = self.w(nh.a); let t = self.concat(nh.a, l); let _ = ze; return self.zext(t, w); }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w { return a; }
        if n.w > w { return self.extract(a, 0, w); }
        if let Some(v) = self.cv(a) { return self.c(w, v); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w { return a; }
        if n.w > w { return self.extract(a, 0, w); }
        if let Some(v) = self.cv(a) { return self.c(w, sx(v, n.w) as u128); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if self.range(a).1 < (1u128 << (n.w - 1)) { return self.zext(a, w); }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y); }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn ite(&mut self, c: Ex, t: Ex, e: Ex) -> Ex {
        debug_assert_eq!(self.w(t), self.w(e));
        if let Some(v) = self.cv(c) { return if v == 1 { t } else { e }; }
        if t == e { return t; }
        let w = self.w(t);
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) { return self.ite(nc.a, e, t); }
        if w == 1 {
            match (self.cv(t), self.cv(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, e); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        } else if self.cv(t) == Some(1) && self.cv(e) == Some(0) { return self.zext(c, w); }
        let (nt, ne) = (self.n(t), self.n(e));
        if nt.op == Op::Ite && nt.a == c { return self.ite(c, nt.b, e); }
        if ne.op == Op::Ite && ne.a == c { return self.ite(c, t, ne.c); }
        if ne.op == Op::Ite && ne.b == t { let o = self.bin(Op::Or, c, ne.a); return self.ite(o, t, ne.c); }
        self.mk(Op::Ite, w, c, t, e)
    }
    pub fn uf(&mut self, name: &str, w: u16, a: Ex, b: Ex) -> Ex {
        let id = match self.ufs.iter().position(|x| x == name) { Some(i) => i, None => { self.ufs.push(name.to_string()); self.ufs.len() - 1 } };
        self.mk(Op::Uf, w, a, b, id as u32)
    }
    /// Floating point / conversion node with concrete folding done by eval.
    pub fn fp(&mut self, op: Op, w: u16, a: Ex, b: Ex, c: u32) -> Ex {
        let n = Node { op, w, a, b, c };
        let ks = self.kids(&n);
        if ks.iter().flatten().all(|k| self.cv(*k).is_some()) {
            let vals: Vec<u128> = ks.iter().flatten().map(|k| self.cv(*k).unwrap()).collect();
            let aw = self.w(a);
            if let Some(v) = fpfold(op, w, aw, &vals, c) { return self.c(w, v); }
        }
        self.mk(op, w, a, b, c)
    }
    /// Evaluate under a model.
    pub fn eval(&mut self, e: Ex, m: &dyn Fn(u32) -> u128) -> u128 {
        self.epoch += 1;
        self.eval_rec(e, m)
    }
    fn eval_rec(&mut self, e: Ex, m: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.n(e);
        match n.op { Op::Const => return self.consts[n.a as usize], Op::Var => return m(n.a) & mask(n.w), _ => {} }
        let (ep, v) = self.ev[e as usize];
        if ep == self.epoch { return v; }
        use Op::*;
        let r = match n.op {
            Ite => { if self.eval_rec(n.a, m) == 1 { self.eval_rec(n.b, m) } else { self.eval_rec(n.c, m) } }
            Extract => self.eval_rec(n.a, m) >> n.c,
            ZExt => self.eval_rec(n.a, m),
            SExt => { let w = self.w(n.a); sx(self.eval_rec(n.a, m), w) as u128 }
            Concat => { let wl = self.w(n.b); (self.eval_rec(n.a, m) << wl) | self.eval_rec(n.b, m) }
            Eq | Ult | Ule | Slt | Sle => {
                let w = self.w(n.a);
                let (x, y) = (self.eval_rec(n.a, m), self.eval_rec(n.b, m));
                (match n.op { Eq => x == y, Ult => x < y, Ule => x <= y, Slt => sx(x, w) < sx(y, w), _ => sx(x, w) <= sx(y, w) }) as u128
            }
            Add | Sub | Mul | UDiv | SDiv | URem | SRem | And | Or | Xor | Shl | LShr | AShr => {
                let (x, y) = (self.eval_rec(n.a, m), self.eval_rec(n.b, m));
                fold(n.op, n.w, x, y)
            }
            Uf => { let x = self.eval_rec(n.a, m); let y = if n.b == NONE { 0 } else { self.eval_rec(n.b, m) }; (x ^ y.rotate_left(7) ^ n.c as u128).wrapping_mul(0x9E3779B97F4A7C15) }
            _ => {
                let mut vals = vec![];
                for k in self.kids(&n).into_iter().flatten() { vals.push(self.eval_rec(k, m)); }
                let aw = self.w(n.a);
                fpfold(n.op, n.w, aw, &vals, n.c).unwrap_or(0)
            }
        } & mask(n.w);
        self.ev[e as usize] = (self.epoch, r);
        r
    }
    pub fn has_fp(&self, e: Ex) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = self.n(x);
            if n.op >= Op::FAdd { return true; }
            st.extend(self.kids(&n).into_iter().flatten());
        }
        false
    }
    /// Substitute known values (expression -> constant), bottom-up.
    pub fn subst(&mut self, e: Ex, s: &FxMap<Ex, Ex>, memo: &mut FxMap<Ex, Ex>) -> Ex {
        if let Some(&r) = s.get(&e) { return r; }
        let n = self.n(e);
        if matches!(n.op, Op::Const | Op::Var) { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let r = self.rebuild(n, &mut |p, k| p.subst(k, s, memo));
        let r = r.unwrap_or(e);
        memo.insert(e, r);
        r
    }
    fn rebuild(&mut self, n: Node, f: &mut dyn FnMut(&mut Pool, Ex) -> Ex) -> Option<Ex> {
        use Op::*;
        Some(match n.op {
            Const | Var => return None,
            Extract => { let a = f(self, n.a); if a == n.a { return None; } self.extract(a, n.c as u16, n.w) }
            ZExt => { let a = f(self, n.a); if a == n.a { return None; } self.zext(a, n.w) }
            SExt => { let a = f(self, n.a); if a == n.a { return None; } self.sext(a, n.w) }
            Ite => { let a = f(self, n.a); if let Some(v) = self.cv(a) { return Some(if v == 1 { f(self, n.b) } else { f(self, n.c) }); }
                let b = f(self, n.b); let c = f(self, n.c); if (a, b, c) == (n.a, n.b, n.c) { return None; } self.ite(a, b, c) }
            Concat => { let a = f(self, n.a); let b = f(self, n.b); if (a, b) == (n.a, n.b) { return None; } self.concat(a, b) }
            Eq | Ult | Ule | Slt | Sle => { let a = f(self, n.a); let b = f(self, n.b); if (a, b) == (n.a, n.b) { return None; } self.cmp(n.op, a, b) }
            Add | Sub | Mul | UDiv | SDiv | URem | SRem | And | Or | Xor | Shl | LShr | AShr => { let a = f(self, n.a); let b = f(self, n.b); if (a, b) == (n.a, n.b) { return None; } self.bin(n.op, a, b) }
            Uf => { let a = f(self, n.a); let b = if n.b == NONE { NONE } else { f(self, n.b) }; self.mk(Uf, n.w, a, b, n.c) }
            FSqrt | FIsNan | FToF | FToSI | FToUI | SIToF | UIToF | FRound => { let a = f(self, n.a); if a == n.a { return None; } self.fp(n.op, n.w, a, n.b, n.c) }
            _ => { let a = f(self, n.a); let b = f(self, n.b); if (a, b) == (n.a, n.b) { return None; } self.fp(n.op, n.w, a, b, n.c) }
        })
    }
    pub fn show(&self, e: Ex) -> String { self.show_d(e, 12) }
    /// debugging: where two terms first differ
    pub fn diff(&self, a: Ex, b: Ex) {
        let (mut a, mut b) = (a, b);
        loop {
            let (na, nb) = (self.n(a), self.n(b));
            let (ka, kb) = (self.kids(&na), self.kids(&nb));
            let d: Vec<(Ex, Ex)> = ka.iter().flatten().copied().zip(kb.iter().flatten().copied()).filter(|(x, y)| x != y).collect();
            let same = d.iter().filter(|(x, y)| self.n(*x).op == self.n(*y).op && self.w(*x) == self.w(*y)).count();
            if na.op != nb.op || same != d.len() || na.w != nb.w || na.c != nb.c { eprintln!("DIFF\n {}\n {}", self.show_d(a, 6), self.show_d(b, 6)); return; }
            a = d[0].0; b = d[0].1;
        }
    }
    fn show_d(&self, e: Ex, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if d == 0 => "...".into(),
            Op::Extract => format!("{}[{}+{}]", self.show_d(n.a, d - 1), n.c, n.w),
            _ => {
                let ks: Vec<String> = self.kids(&n).iter().flatten().map(|k| self.show_d(*k, d - 1)).collect();
                format!("({:?}{} {})", n.op, n.w, ks.join(" "))
            }
        }
    }
}

fn subset(a: &[u32], b: &[u32]) -> bool {
    if a.len() > b.len() { return false; }
    let mut j = 0;
    for x in a { while j < b.len() && b[j] < *x { j += 1; } if j >= b.len() || b[j] != *x { return false; } }
    true
}

/// SMT-LIB semantics for division by zero and over-shifts.
pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
    use Op::*;
    let m = mask(w);
    (match op {
        Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y),
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => { let (p, q) = (sx(x, w), sx(y, w)); if q == 0 { if p < 0 { 1 } else { m } } else { p.wrapping_div(q) as u128 } }
        SRem => { let (p, q) = (sx(x, w), sx(y, w)); if q == 0 { x } else { p.wrapping_rem(q) as u128 } }
        And => x & y, Or => x | y, Xor => x ^ y,
        Shl => if y >= w as u128 { 0 } else { x << y },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => { let s = y.min(w as u128 - 1); (sx(x, w) >> s) as u128 }
        _ => unreachable!(),
    }) & m
}

pub fn fpfold(op: Op, w: u16, aw: u16, v: &[u128], c: u32) -> Option<u128> {
    use Op::*;
    let f64v = |i: usize| f64::from_bits(v[i] as u64);
    let f32v = |i: usize| f32::from_bits(v[i] as u32);
    macro_rules! arith { ($op:tt) => { match w { 64 => (f64v(0) $op f64v(1)).to_bits() as u128, 32 => (f32v(0) $op f32v(1)).to_bits() as u128, _ => return None } } }
    macro_rules! cmp { ($op:tt) => { match aw { 64 => (f64v(0) $op f64v(1)) as u128, 32 => (f32v(0) $op f32v(1)) as u128, _ => return None } } }
    Some(match op {
        FAdd => arith!(+), FSub => arith!(-), FMul => arith!(*), FDiv => arith!(/), FRem => arith!(%),
        FSqrt => match w { 64 => f64v(0).sqrt().to_bits() as u128, 32 => f32v(0).sqrt().to_bits() as u128, _ => return None },
        FEq => cmp!(==), FLt => cmp!(<), FLe => cmp!(<=),
        FIsNan => match aw { 64 => f64v(0).is_nan() as u128, 32 => f32v(0).is_nan() as u128, _ => return None },
        FToF => match (aw, w) { (64, 32) => (f64v(0) as f32).to_bits() as u128, (32, 64) => (f32v(0) as f64).to_bits() as u128, _ => v[0] },
        FToSI => { let x = if aw == 64 { f64v(0) } else { f32v(0) as f64 }; (x as i128) as u128 & mask(w) }
        FToUI => { let x = if aw == 64 { f64v(0) } else { f32v(0) as f64 }; (x as u128) & mask(w) }
        SIToF => { let x = sx(v[0], aw); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        UIToF => { let x = v[0]; if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        FRound => {
            macro_rules! r { ($x:expr) => { match c { 0 => $x.round_ties_even(), 1 => $x.ceil(), 2 => $x.floor(), 3 => $x.trunc(), _ => $x.round() } } }
            if w == 64 { r!(f64v(0)).to_bits() as u128 } else { r!(f32v(0)).to_bits() as u128 }
        }
        _ => return None,
    })
}
