//! Symbolic execution of the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Ctl { Viol(String, String), Unsup(String), Kill, Done, Limit(String) }
pub type R<T> = Result<T, Ctl>;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<Val>, pub bb: u32, pub ip: u32, pub prev: u32, pub allocas: Vec<u32>, pub dst: u32, pub next: Option<u32>, pub hook: u32 }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub pc: Vec<Ex>,
    pub model: Rc<Vec<u128>>,
    pub subst: FxMap<Ex, Ex>,
    pub memo: FxMap<Ex, Ex>,
    pub bounds: FxMap<Ex, (u128, u128)>,
    pub inputs: Vec<(u32, u16)>, // var index, width
    pub obs: Vec<(u64, Ex, u16)>,
    pub steps: u64,
    pub depth: u32,
    pub panic_ok: bool,
    pub ret: Option<Val>,
    pub misc: u64,
    pub cells: BTreeMap<u64, u64>, // scratch for stubs
    pub fuel: u64,
    pub threads: Vec<Vec<Frame>>, pub cur: usize, // suspended call stacks, and which one is running
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<(u16, u128)>, pub stack: Vec<String> }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<(u16, u128)>, pub obs: Vec<(u64, u128)> }

pub struct Cfg { pub max_steps: u64, pub max_paths: u64, pub max_secs: f64, pub jobs: usize, pub samples: usize, pub max_conc: u32, pub stop_first: bool, pub verbose: bool, pub leak: bool, pub max_viol: usize, pub nofork: bool }

#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub killed: u64, pub steps: u64, pub forks: u64, pub panics_ok: u64, pub cache: u64, pub max_depth: u64, pub asserts: u64, pub assert_queries: u64, pub interval: u64 }

pub struct Engine {
    pub p: Pool,
    pub z: Z3,
    pub m: Module,
    pub ng: u32,
    pub cfg: Cfg, pub eargs: Vec<u64>,
    pub pending: Vec<State>,
    /// the processes that explore together, if there are more than one
    pub team: Option<crate::team::Team>,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub st: Stats,
    pub reach: BTreeMap<u64, u64>,
    pub used: BTreeMap<u32, u64>, // function id -> calls
    pub exts: BTreeMap<String, u64>,
    pub cache: HashMap<Vec<Ex>, Option<Rc<Vec<(u32, u128)>>>>,
    pub vars: Vec<Ex>,
    pub varkey: HashMap<(usize, u16), u32>,
    pub t0: Instant,
    pub extc: HashMap<u32, crate::ext::Ext>,
    pub viol_sites: HashMap<String, u32>,
    pub gcache: HashMap<u32, (Vec<u8>, bool)>,
    pub hooks: HashMap<u32, crate::ext::Ext>,
}

#[derive(Clone, Debug)]
pub struct Lin { t: Vec<((Ex, bool), i128)>, k: i128, r: (i128, i128), m: u32 }
impl Lin {
    fn comb(a: &Lin, b: &Lin, s: i128) -> Option<Lin> {
        let mut t: BTreeMap<(Ex, bool), i128> = a.t.iter().copied().collect();
        for (x, k) in &b.t { let e = t.entry(*x).or_insert(0); *e = e.checked_add(k.checked_mul(s)?)?; }
        t.retain(|_, v| *v != 0);
        let (bl, bh) = if s > 0 { (b.r.0, b.r.1) } else { (-b.r.1, -b.r.0) };
        const L: i128 = 1 << 120;
        let r = (a.r.0.checked_add(bl)?, a.r.1.checked_add(bh)?);
        if r.0 < -L || r.1 > L { return None; }
        Some(Lin { t: t.into_iter().collect(), k: a.k.checked_add(b.k.checked_mul(s)?)?, r, m: a.m.min(b.m) })
    }
    fn sub(a: &Lin, b: &Lin) -> Option<Lin> { Lin::comb(a, b, -1) }
    fn scale(&self, k: i128) -> Option<Lin> {
        const L: i128 = 1 << 120;
        let (p, q) = (self.r.0.checked_mul(k)?, self.r.1.checked_mul(k)?);
        let r = (p.min(q), p.max(q)); if r.0 < -L || r.1 > L { return None; }
        let mut t = vec![]; if k != 0 { for (x, c) in &self.t { t.push((*x, c.checked_mul(k)?)); } }
        Some(Lin { t, k: self.k.checked_mul(k)?, r, m: self.m })
    }
}

fn merr(e: MErr) -> Ctl {
    match e {
        MErr::Null(a) => Ctl::Viol("null".into(), format!("access to invalid address {:#x}", a)),
        MErr::Uaf(a) => Ctl::Viol("use-after-free".into(), format!("access to freed memory {:#x}", a)),
        MErr::Oob(a, s) => Ctl::Viol("out-of-bounds".into(), format!("access at offset {} of an object of {} bytes", a & 0xffff_ffff, s)),
        MErr::Ro(a) => Ctl::Viol("write-to-constant".into(), format!("write to read-only memory {:#x}", a)),
        MErr::NotObj(a) => Ctl::Viol("wild-pointer".into(), format!("access to unmapped address {:#x}", a)),
        MErr::Lazy(_) => Ctl::Unsup("lazy".into()),
    }
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg, timeout_ms: u32) -> Engine {
        let ng = m.globals.len() as u32;
        Engine { p: Pool::new(), z: Z3::new(timeout_ms), m, ng, cfg, eargs: vec![], pending: vec![], team: None, viols: vec![], errors: vec![], samples: vec![], st: Default::default(), reach: BTreeMap::new(), used: BTreeMap::new(), exts: BTreeMap::new(),
            cache: HashMap::new(), vars: vec![], varkey: HashMap::new(), t0: Instant::now(), extc: HashMap::new(), viol_sites: HashMap::new(), gcache: HashMap::new(), hooks: HashMap::new() }
    }
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> Result<State, String> {
        let id = self.m.gid(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = self.m.func(id)?;
        let mut st = State { mem: Mem::new(self.ng), frames: vec![], pc: vec![], model: Rc::new(vec![]), subst: Default::default(), memo: Default::default(), bounds: Default::default(), inputs: vec![], obs: vec![], steps: 0, depth: 0, panic_ok: false, ret: None, misc: 0, cells: BTreeMap::new(), fuel: 0, threads: vec![vec![]], cur: 0 };
        self.eargs = args.to_vec();
        let a = args.iter().take(f.params.len()).map(|x| Val::C(*x)).collect();
        self.push_frame(&mut st, f, a, u32::MAX, None).map_err(|e| format!("{:?}", e))?;
        Ok(st)
    }
    pub fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dst: u32, next: Option<u32>) -> R<()> {
        if st.frames.len() > 4000 { return Err(Ctl::Viol("stack-overflow".into(), "call depth exceeds 4000".into())); }
        *self.used.entry(f.id).or_insert(0) += 1;
        let mut regs = vec![Val::C(0); f.nregs as usize];
        // An aggregate passed where the callee takes its fields one by one: the same registers.
        let args = if args.len() < f.params.len() && args.iter().any(|a| matches!(a, Val::A(_))) {
            fn flat(a: Val, o: &mut Vec<Val>) { match a { Val::A(v) => for x in v.iter() { flat(x.clone(), o) }, a => o.push(a) } }
            let mut o = vec![]; for a in args { flat(a, &mut o) } o
        } else { args };
        if args.len() < f.params.len() { return Err(Ctl::Unsup(format!("call of {} with {} arguments instead of {}", f.name, args.len(), f.params.len()))); }
        let mut allocas = vec![];
        for (k, a) in args.into_iter().enumerate() {
            if k >= f.params.len() { break; }
            let a = if let Some(bt) = f.byval[k] {
                let n = self.m.types.size(bt);
                let src = self.addr(st, &a, n)?;
                let p = st.mem.alloc(n as usize, 0, Kind::Stack);
                allocas.push((p >> 32) as u32);
                self.copy(st, p, src, n)?;
                Val::C(p)
            } else { a };
            regs[f.params[k] as usize] = a;
        }
        st.frames.push(Frame { f, regs, bb: 0, ip: 0, prev: u32::MAX, allocas, dst, next, hook: 0 });
        let d = st.frames.len() as u64; if d > self.st.max_depth { self.st.max_depth = d; }
        Ok(())
    }
    // ------------------------------------------------------------ values
    pub fn ex(&mut self, v: &Val, w: u16) -> Ex {
        match v { Val::S(e) => { debug_assert_eq!(self.p.w(*e), w, "width"); *e } Val::C(x) => self.p.c(w, *x as u128), Val::W(x) => self.p.c(w, **x), Val::A(_) => panic!("aggregate where scalar expected") }
    }
    #[inline] pub fn mk(&self, e: Ex) -> Val { match self.p.cv(e) { Some(v) => Val::c(v), None => Val::S(e) } }
    #[inline] fn opd(&self, st: &State, o: &Opd) -> Val { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    #[inline] fn set(&self, st: &mut State, dst: u32, v: Val) { if dst != u32::MAX { st.frames.last_mut().unwrap().regs[dst as usize] = v; } }

    // ------------------------------------------------------------ constraints
    pub fn simp(&mut self, st: &mut State, e: Ex) -> Ex {
        if st.subst.is_empty() || self.p.cv(e).is_some() { return e; }
        let s = std::mem::take(&mut st.subst);
        let mut memo = std::mem::take(&mut st.memo);
        let r = self.p.subst(e, &s, &mut memo);
        st.subst = s; st.memo = memo;
        r
    }
    pub fn eval(&mut self, st: &State, e: Ex) -> u128 { let m = st.model.clone(); self.p.eval(e, &|i| m.get(i as usize).copied().unwrap_or(0)) }
    fn slice(&mut self, st: &State, c: Ex) -> Vec<Ex> {
        let vs = self.p.vars_of(c);
        let mut set: std::collections::HashSet<u32> = vs.iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let v = self.p.vars_of(*e);
                if v.iter().any(|x| set.contains(x)) { used[i] = true; ch = true; out.push(*e); for x in v.iter() { set.insert(*x); } }
            }
            if !ch { break; }
        }
        out.sort_unstable(); out.dedup();
        out
    }
    /// Is pc && c satisfiable? Returns model updates.
    pub fn sat(&mut self, st: &State, c: Ex) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        match self.p.cv(c) { Some(0) => return Ok(None), Some(_) => return Ok(Some(Rc::new(vec![]))), None => {} }
        if self.decide(st, c) == Some(false) { self.st.interval += 1; return Ok(None); }
        let sl = self.slice(st, c);
        if let Some(r) = self.cache.get(&sl) { self.st.cache += 1; return Ok(r.clone()); }
        if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs { return Err(Ctl::Limit("time limit".into())); }
        let r = match self.z.check(&self.p, &sl).map_err(Ctl::Unsup)? {
            Ans::Sat(m) => {
                let fp = sl.iter().any(|e| self.p.has_fp(*e));
                if !fp {
                    let mm: FxMap<u32, u128> = m.iter().copied().collect();
                    for e in &sl { let v = self.p.eval(*e, &|i| mm.get(&i).copied().unwrap_or(0)); if v != 1 { return Err(Ctl::Unsup(format!("solver model does not satisfy {}", self.p.show(*e)))); } }
                }
                Some(Rc::new(m))
            }
            Ans::Unsat => None,
            Ans::Unknown => return Err(Ctl::Limit("solver timeout".into())),
        };
        if self.cache.len() > 2_000_000 { self.cache.clear(); }
        self.cache.insert(sl, r.clone());
        Ok(r)
    }
    /// As `sat`, for an assertion: some arbitrary values are tried first, since inverting chains of multiplications is beyond a solver.
    pub fn refute(&mut self, st: &State, c: Ex) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        if self.p.cv(c).is_none() && !self.p.has_fp(c) {
            let sl = self.slice(st, c);
            if sl.len() <= 8 && !sl.iter().any(|e| self.p.has_fp(*e)) {
                for t in 0..6u128 {
                    let val = |i: u32| { let x = (i as u128 + 1).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).wrapping_mul(2 * t + 1); let x = x ^ (x >> 61); if t >= 4 { x & 0xff } else { x } };
                    if sl.iter().all(|e| self.p.eval(*e, &val) == 1) {
                        let mut vs: Vec<u32> = sl.iter().flat_map(|e| self.p.vars_of(*e).to_vec()).collect();
                        vs.sort_unstable(); vs.dedup();
                        return Ok(Some(Rc::new(vs.into_iter().map(|i| (i, val(i))).collect())));
                    }
                }
            }
        }
        self.sat(st, c)
    }
    pub fn apply_model(&mut self, st: &mut State, m: &[(u32, u128)]) {
        let mm = Rc::make_mut(&mut st.model);
        for (v, x) in m { if mm.len() <= *v as usize { mm.resize(*v as usize + 1, 0); } mm[*v as usize] = *x; }
    }
    pub fn add(&mut self, st: &mut State, c: Ex) {
        if self.p.cv(c).is_some() { return; }
        let n = self.p.n(c);
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        self.learn(st, c, true);
        st.pc.push(c);
        st.memo.clear();
        let t = self.p.tru();
        st.subst.insert(c, t);
        let nc = self.p.not(c); let f = self.p.fls();
        if self.p.cv(nc).is_none() { st.subst.insert(nc, f); }
        if n.op == Op::Eq { if self.p.cv(n.b).is_some() { st.subst.insert(n.a, n.b); } else if self.p.cv(n.a).is_some() { st.subst.insert(n.b, n.a); } }
    }
    // ---- interval reasoning under the path condition (a cheap pre-check before the solver)
    fn bound(&mut self, st: &mut State, e: Ex, lo: u128, hi: u128) {
        if self.p.cv(e).is_some() { return; }
        let cur = self.rng(st, e);
        let n = (cur.0.max(lo), cur.1.min(hi));
        if n == cur || n.0 > n.1 { return; }
        st.bounds.insert(e, n);
        let nd = self.p.n(e);
        match nd.op {
            Op::ZExt => self.bound(st, nd.a, n.0, n.1),
            Op::Add => if let Some(k) = self.p.cv(nd.b) {
                let m = mask(nd.w);
                let (l, h) = (n.0.wrapping_sub(k) & m, n.1.wrapping_sub(k) & m);
                if l <= h { self.bound(st, nd.a, l, h); }
            },
            Op::SExt => { let iw = self.p.w(nd.a); if n.1 < 1u128 << (iw - 1) { self.bound(st, nd.a, n.0, n.1); } }
            Op::Concat => { let wl = self.p.w(nd.b); self.bound(st, nd.a, n.0 >> wl, n.1 >> wl); if n.1 >> wl == 0 { self.bound(st, nd.b, n.0, n.1); } }
            _ => {}
        }
    }
    fn learn(&mut self, st: &mut State, c: Ex, v: bool) {
        let n = self.p.n(c);
        let (a, b) = (n.a, n.b);
        match n.op {
            Op::Xor if self.p.cv(b) == Some(1) => self.learn(st, a, !v),
            Op::And if v => { self.learn(st, a, true); self.learn(st, b, true); }
            Op::Or if !v => { self.learn(st, a, false); self.learn(st, b, false); }
            Op::Eq if v => { if let Some(k) = self.p.cv(b) { self.bound(st, a, k, k); } else if let Some(k) = self.p.cv(a) { self.bound(st, b, k, k); } }
            Op::Eq => { let k = self.p.cv(b); if let Some(k) = k { let r = self.rng(st, a); if r.0 == k && r.0 < r.1 { self.bound(st, a, k + 1, r.1); } else if r.1 == k && r.0 < r.1 { self.bound(st, a, r.0, k - 1); } } }
            Op::Ult | Op::Ule => {
                let strict = (n.op == Op::Ult) == v; // a<b, or !(a<=b) == b<a
                let (x, y) = if v { (a, b) } else { (b, a) };
                let (rx, ry) = (self.rng(st, x), self.rng(st, y));
                let d = strict as u128;
                if ry.1 >= d { self.bound(st, x, 0, ry.1 - d); }
                if let Some(l) = rx.0.checked_add(d) { self.bound(st, y, l, u128::MAX); }
            }
            Op::Slt | Op::Sle => {
                let w = self.p.w(a); let half = 1u128 << (w - 1);
                let strict = (n.op == Op::Slt) == v;
                let (x, y) = if v { (a, b) } else { (b, a) };
                let (rx, ry) = (self.rng(st, x), self.rng(st, y));
                let d = strict as u128;
                if rx.1 < half { // 0 <= x <(=) y : y is non-negative
                    self.bound(st, y, rx.0 + d, half - 1);
                }
                let (rx, ry) = (self.rng(st, x), if ry.1 < half { ry } else { self.rng(st, y) });
                if rx.1 < half && ry.1 < half && ry.1 >= d { self.bound(st, x, 0, ry.1 - d); }
                if ry.0 >= half && ry.1 >= half { // y negative => x negative and below
                    self.bound(st, x, half, ry.1 - d);
                }
            }
            Op::Extract if n.w == 1 => {
                let w = self.p.w(a);
                if n.c as u16 == w - 1 { let half = 1u128 << (w - 1); if v { self.bound(st, a, half, u128::MAX); } else { self.bound(st, a, 0, half - 1); } }
            }
            _ => {}
        }
    }
    pub fn rng(&mut self, st: &State, e: Ex) -> (u128, u128) {
        let mut memo = Default::default(); let mut fuel = 400;
        self.rng_rec(st, e, &mut memo, &mut fuel)
    }
    fn rng_rec(&mut self, st: &State, e: Ex, memo: &mut FxMap<Ex, (u128, u128)>, fuel: &mut u32) -> (u128, u128) {
        let base = self.p.range(e);
        if base.0 == base.1 || st.bounds.is_empty() { return base; }
        if let Some(r) = memo.get(&e) { return *r; }
        let mut r = base;
        if let Some(b) = st.bounds.get(&e) { r = (r.0.max(b.0), r.1.min(b.1)); }
        if *fuel > 0 {
            *fuel -= 1;
            let n = self.p.n(e);
            let m = mask(n.w);
            use Op::*;
            let mut k = |s: &mut Self, x: Ex| s.rng_rec(st, x, memo, fuel);
            let c: Option<(u128, u128)> = match n.op {
                ZExt => Some(k(self, n.a)),
                SExt => { let iw = self.p.w(n.a); let h = 1u128 << (iw - 1); let a = k(self, n.a); if a.1 < h { Some(a) } else if a.0 >= h { let ext = m & !mask(iw); Some((a.0 | ext, a.1 | ext)) } else { None } }
                Add => { let a = k(self, n.a); let b = k(self, n.b); match (a.0.checked_add(b.0), a.1.checked_add(b.1)) { (Some(l), Some(h)) if h <= m => Some((l, h)), (Some(l), Some(h)) if n.w < 128 && l > m && h <= 2 * m + 1 => Some((l & m, h & m)), _ => None } }
                Sub => { let a = k(self, n.a); let b = k(self, n.b); if a.0 >= b.1 { Some((a.0 - b.1, a.1 - b.0)) } else { None } }
                Mul => { let a = k(self, n.a); let b = k(self, n.b); match a.1.checked_mul(b.1) { Some(h) if h <= m => Some((a.0 * b.0, h)), _ => None } }
                UDiv => { let a = k(self, n.a); let b = k(self, n.b); if b.0 > 0 { Some((a.0 / b.1, a.1 / b.0)) } else { None } }
                SDiv => { let a = k(self, n.a); let b = k(self, n.b); let h = 1u128 << (n.w - 1); if b.0 > 0 && a.1 < h && b.1 < h { Some((a.0 / b.1, a.1 / b.0)) } else { None } }
                URem => { let a = k(self, n.a); let b = k(self, n.b); if b.0 > 0 { if a.1 < b.0 { Some(a) } else { Some((0, (b.1 - 1).min(a.1))) } } else { None } }
                SRem => { let a = k(self, n.a); let b = k(self, n.b); let h = 1u128 << (n.w - 1); if b.0 > 0 && a.1 < h && b.1 < h { if a.1 < b.0 { Some(a) } else { Some((0, (b.1 - 1).min(a.1))) } } else { None } }
                And => { let a = k(self, n.a); let b = k(self, n.b); Some((0, a.1.min(b.1))) }
                Or => { let a = k(self, n.a); let b = k(self, n.b); let x = a.1 | b.1; Some((a.0.max(b.0), if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u16) })) }
                Concat => { let wl = self.p.w(n.b); let a = k(self, n.a); let b = k(self, n.b); Some(((a.0 << wl) | b.0, (a.1 << wl) | b.1)) }
                Extract => { let a = k(self, n.a); if a.1 >> n.c <= m { Some((a.0 >> n.c, a.1 >> n.c)) } else if n.c == 0 && a.0 & !m == a.1 & !m { Some((a.0 & m, a.1 & m)) } else { None } }
                Shl => { let a = k(self, n.a); let b = k(self, n.b); if b.0 == b.1 && b.0 < n.w as u128 && a.1 <= m >> b.0 { Some((a.0 << b.0, a.1 << b.0)) } else { None } }
                LShr => { let a = k(self, n.a); let b = k(self, n.b); if b.1 < n.w as u128 { Some((a.0 >> b.1, a.1 >> b.0)) } else { None } }
                AShr => { let a = k(self, n.a); let b = k(self, n.b); if b.1 < n.w as u128 && a.1 < 1u128 << (n.w - 1) { Some((a.0 >> b.1, a.1 >> b.0)) } else { None } }
                Ite => { let c = k(self, n.a); if c.0 == 1 { Some(k(self, n.b)) } else if c.1 == 0 { Some(k(self, n.c)) } else { let a = k(self, n.b); let b = k(self, n.c); Some((a.0.min(b.0), a.1.max(b.1))) } }
                Eq | Ult | Ule | Slt | Sle => {
                    let a = k(self, n.a); let b = k(self, n.b); let w = self.p.w(n.a); let h = 1u128 << (w - 1);
                    let flip = |r: (u128, u128)| if r.1 < h { Some((r.0 + h, r.1 + h)) } else if r.0 >= h { Some((r.0 - h, r.1 - h)) } else { None };
                    let t = match n.op {
                        Eq => if a.1 < b.0 || b.1 < a.0 { Some(0) } else if a.0 == a.1 && a == b { Some(1) } else { None },
                        Ult => if a.1 < b.0 { Some(1) } else if a.0 >= b.1 { Some(0) } else { None },
                        Ule => if a.1 <= b.0 { Some(1) } else if a.0 > b.1 { Some(0) } else { None },
                        Slt => match (flip(a), flip(b)) { (Some(a), Some(b)) => if a.1 < b.0 { Some(1) } else if a.0 >= b.1 { Some(0) } else { None }, _ => None },
                        _ => match (flip(a), flip(b)) { (Some(a), Some(b)) => if a.1 <= b.0 { Some(1) } else if a.0 > b.1 { Some(0) } else { None }, _ => None },
                    };
                    t.map(|x| (x, x))
                }
                Xor if n.w == 1 => { let a = k(self, n.a); let b = k(self, n.b); if a.0 == a.1 && b.0 == b.1 { Some((a.0 ^ b.0, a.0 ^ b.0)) } else { None } }
                _ => None,
            };
            if let Some(c) = c { let t = (r.0.max(c.0), r.1.min(c.1)); if t.0 <= t.1 { r = t; } }
        }
        memo.insert(e, r);
        r
    }
    pub fn decide(&mut self, st: &State, c: Ex) -> Option<bool> {
        if !st.bounds.is_empty() {
            let r = self.rng(st, c);
            if r.0 == r.1 { return Some(r.0 == 1); }
        }
        self.decide2(st, c, 24)
    }
    fn decide2(&mut self, st: &State, c: Ex, d: u32) -> Option<bool> {
        if let Some(v) = self.p.cv(c) { return Some(v == 1); }
        if d == 0 { return None; }
        let n = self.p.n(c);
        match n.op {
            Op::Xor if self.p.cv(n.b) == Some(1) => self.decide2(st, n.a, d - 1).map(|x| !x),
            Op::And if n.w == 1 => { let a = self.decide2(st, n.a, d - 1); if a == Some(false) { return a; } let b = self.decide2(st, n.b, d - 1); if b == Some(false) { return b; } if a.is_some() && b.is_some() { Some(true) } else { None } }
            Op::Or if n.w == 1 => { let a = self.decide2(st, n.a, d - 1); if a == Some(true) { return a; } let b = self.decide2(st, n.b, d - 1); if b == Some(true) { return b; } if a.is_some() && b.is_some() { Some(false) } else { None } }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.lin_decide(st, c),
            Op::Extract if n.w == 1 && n.c as u16 == self.p.w(n.a) - 1 && matches!(self.p.n(n.a).op, Op::Add | Op::Sub | Op::Mul | Op::SDiv | Op::SRem) => {
                let mut memo = Default::default(); let mut fuel = 300;
                let l = self.lin_as(st, n.a, true, &mut memo, &mut fuel)?;
                if l.r.0 >= 0 { Some(false) } else if l.r.1 < 0 { Some(true) } else { None }
            }
            _ => None,
        }
    }
    // ---- linear integer reasoning: e is congruent (mod 2^w) to an integer X in `r`, and X == sum(t) + k (mod 2^m)
    fn lin_decide(&mut self, st: &State, c: Ex) -> Option<bool> {
        let n = self.p.n(c);
        let w = self.p.w(n.a);
        if w == 1 || w > 64 { return None; }
        let arith = |p: &Pool, e: Ex| matches!(p.n(e).op, Op::Add | Op::Sub | Op::Mul | Op::SDiv | Op::SRem | Op::URem | Op::UDiv | Op::SExt | Op::ZExt | Op::Concat);
        if !arith(&self.p, n.a) && !arith(&self.p, n.b) { return None; }
        let mut memo = Default::default(); let mut fuel = 300;
        let sg = matches!(n.op, Op::Slt | Op::Sle);
        if n.op == Op::Eq {
            let a = self.lin(st, n.a, &mut memo, &mut fuel)?; let b = self.lin(st, n.b, &mut memo, &mut fuel)?;
            if a.m.min(b.m) < w as u32 { return None; }
            let d = Lin::sub(&a, &b)?;
            let md = |x: i128| (x as u128) & mask(w);
            let mut cs: BTreeMap<Ex, i128> = BTreeMap::new();
            for ((x, s), k) in &d.t { let key = if self.p.w(*x) >= w { *x } else { *x * 2 + *s as u32 + (1 << 31) }; *cs.entry(key).or_insert(0) += *k; }
            if cs.values().all(|v| md(*v) == 0) { return Some(md(d.k) == 0); }
            return None;
        }
        let a = self.lin_as(st, n.a, sg, &mut memo, &mut fuel)?; let b = self.lin_as(st, n.b, sg, &mut memo, &mut fuel)?;
        // exact integers: compare through ranges, and through the difference when the forms are exact
        let strict = matches!(n.op, Op::Ult | Op::Slt);
        if strict { if a.r.1 < b.r.0 { return Some(true); } if a.r.0 >= b.r.1 { return Some(false); } } else { if a.r.1 <= b.r.0 { return Some(true); } if a.r.0 > b.r.1 { return Some(false); } }
        {
            let (mut a, mut b, mut strict) = (a, b, strict);
            // comparisons with a quotient by a constant become comparisons of the dividend
            for side in 0..2 {
                let q = self.p.n(if side == 0 { n.a } else { n.b });
                let c = match (q.op, if matches!(q.op, Op::UDiv | Op::SDiv) { self.p.cv(q.b) } else { None }) { (Op::UDiv, Some(c)) if c > 0 && c < 1 << 62 => c as i128, (Op::SDiv, Some(c)) if c > 0 && c < 1 << 62 => c as i128, _ => continue };
                if (q.op == Op::SDiv) != sg && q.op == Op::SDiv { continue; }
                let x = self.lin_as(st, q.a, q.op == Op::SDiv, &mut memo, &mut fuel)?;
                if x.r.0 < 0 && x.r.1 > 0 { continue; }
                let floor = x.r.0 >= 0;
                let other = if side == 0 { b.clone() } else { a.clone() };
                let add = |l: &Lin, k: i128| -> Option<Lin> { let mut l = l.clone(); l.k = l.k.checked_add(k)?; l.r = (l.r.0 + k, l.r.1 + k); Some(l) };
                // q < B, q <= B (side 0); B < q, B <= q (side 1)
                let (na, nb, ns) = match (side, floor, strict) {
                    (0, true, true) => (x, other.scale(c)?, true), (0, true, false) => (x, add(&other, 1)?.scale(c)?, true),
                    (0, false, true) => (x, add(&other, -1)?.scale(c)?, false), (0, false, false) => (x, other.scale(c)?, false),
                    (1, true, true) => (add(&other, 1)?.scale(c)?, x, false), (1, true, false) => (other.scale(c)?, x, false),
                    (_, _, true) => (other.scale(c)?, x, true), (_, _, false) => (add(&other, -1)?.scale(c)?, x, true),
                };
                a = na; b = nb; strict = ns;
                break;
            }
            let d = Lin::sub(&a, &b)?;
            let (mut lo, mut hi) = (d.k, d.k);
            for ((x, s), k) in &d.t { let r = self.leaf_rng(st, *x, *s, &mut memo, &mut fuel); let (p, q) = (r.0.checked_mul(*k)?, r.1.checked_mul(*k)?); lo = lo.checked_add(p.min(q))?; hi = hi.checked_add(p.max(q))?; }
            if strict { if hi < 0 { return Some(true); } if lo >= 0 { return Some(false); } } else { if hi <= 0 { return Some(true); } if lo > 0 { return Some(false); } }
        }
        None
    }
    fn leaf_rng(&mut self, st: &State, e: Ex, sgn: bool, memo: &mut FxMap<Ex, Option<Lin>>, fuel: &mut u32) -> (i128, i128) {
        let w = self.p.w(e);
        let r = self.rng(st, e);
        if !sgn { return (r.0.min(1 << 126) as i128, r.1.min(1 << 126) as i128); }
        let h = 1u128 << (w - 1);
        if r.1 < h { return (r.0 as i128, r.1 as i128); }
        if r.0 >= h { return (r.0 as i128 - (1i128 << w), r.1 as i128 - (1i128 << w)); }
        let n = self.p.n(e);
        match n.op {
            Op::SDiv => if let Some(d) = self.p.cv(n.b) { if d > 0 && d < h { if let Some(a) = self.lin_as(st, n.a, true, memo, fuel) { return (a.r.0 / d as i128, a.r.1 / d as i128); } } },
            Op::SRem => if let Some(d) = self.p.cv(n.b) { if d > 0 && d < h { let d = d as i128; if let Some(a) = self.lin_as(st, n.a, true, memo, fuel) { return (a.r.0.max(1 - d).min(0), a.r.1.min(d - 1).max(0)); } } },
            Op::SExt => return self.leaf_rng(st, n.a, true, memo, fuel),
            // x | sign bit: negative
            _ => {}
        }
        (-(h as i128), h as i128 - 1)
    }
    /// the exact (signed or unsigned) value of e
    fn lin_as(&mut self, st: &State, e: Ex, sgn: bool, memo: &mut FxMap<Ex, Option<Lin>>, fuel: &mut u32) -> Option<Lin> {
        let w = self.p.w(e); if w > 64 { return None; }
        if let Some(l) = self.lin(st, e, memo, fuel) {
            let (lo, hi) = if sgn { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
            if l.r.0 >= lo && l.r.1 <= hi { return Some(l); }
            // an interval on the other side of the wrap
            let m = 1i128 << w;
            for s in [-m, m] { if l.r.0 + s >= lo && l.r.1 + s <= hi { let mut l = l.clone(); l.r = (l.r.0 + s, l.r.1 + s); l.k = l.k.checked_add(s)?; return Some(l); } }
        }
        let r = self.leaf_rng(st, e, sgn, memo, fuel);
        Some(Lin { t: vec![((e, sgn), 1)], k: 0, r, m: 127 })
    }
    fn lin(&mut self, st: &State, e: Ex, memo: &mut FxMap<Ex, Option<Lin>>, fuel: &mut u32) -> Option<Lin> {
        let w = self.p.w(e); if w > 64 { return None; }
        if let Some(v) = self.p.cv(e) { let v = v as i128; let s = sx(v as u128, w); return Some(Lin { t: vec![], k: s, r: (s, s), m: 127 }); }
        if let Some(r) = memo.get(&e) { return r.clone(); }
        if *fuel == 0 { return None; }
        *fuel -= 1;
        let n = self.p.n(e);
        let mut r = match n.op {
            Op::Add => { let a = self.lin(st, n.a, memo, fuel)?; let b = self.lin(st, n.b, memo, fuel)?; Lin::comb(&a, &b, 1) }
            Op::Sub => { let a = self.lin(st, n.a, memo, fuel)?; let b = self.lin(st, n.b, memo, fuel)?; Lin::comb(&a, &b, -1) }
            Op::Mul if self.p.cv(n.b).is_some() => { let k = sx(self.p.cv(n.b).unwrap(), w); let a = self.lin(st, n.a, memo, fuel)?; a.scale(k) }
            Op::Or => {
                let a = self.lin_as(st, n.a, false, memo, fuel)?; let b = self.lin_as(st, n.b, false, memo, fuel)?;
                let disj = a.r.1 >> self.p.tz(n.b).min(126) == 0 || b.r.1 >> self.p.tz(n.a).min(126) == 0;
                if disj { Lin::comb(&a, &b, 1) } else { None }
            }
            Op::Ite => match self.decide(st, n.a) { Some(true) => self.lin(st, n.b, memo, fuel), Some(false) => self.lin(st, n.c, memo, fuel), None => None },
            Op::ZExt => self.lin_as(st, n.a, false, memo, fuel),
            Op::SExt => self.lin_as(st, n.a, true, memo, fuel),
            Op::Extract if n.c == 0 => self.lin(st, n.a, memo, fuel).map(|l| l),
            Op::Concat => { let wl = self.p.w(n.b); let a = self.lin(st, n.a, memo, fuel)?; let b = self.lin_as(st, n.b, false, memo, fuel)?; a.scale(1i128 << wl).and_then(|a| Lin::comb(&a, &b, 1)) }
            Op::SRem | Op::URem if matches!(self.p.cv(n.b), Some(d) if d > 0 && d < 1u128 << (w - 1)) => {
                let d = self.p.cv(n.b).unwrap() as i128; let sg = n.op == Op::SRem;
                let q = self.p.bin(if sg { Op::SDiv } else { Op::UDiv }, n.a, n.b);
                let ql = self.lin_as(st, q, sg, memo, fuel)?;
                let a = self.lin_as(st, n.a, sg, memo, fuel)?;
                let lo = if a.r.0 < 0 { a.r.0.max(1 - d) } else { 0 }; let hi = if a.r.1 > 0 { a.r.1.min(d - 1) } else { 0 };
                ql.scale(d).and_then(|q| Lin::comb(&a, &q, -1)).map(|mut l| { l.r = (lo, hi); l })
            }
            _ => None,
        };
        if let Some(l) = &r { if l.t.len() > 48 { r = None; } }
        if let Some(l) = &mut r { // tighten through the terms
            if l.t.len() <= 3 && matches!(n.op, Op::Add | Op::Sub | Op::Mul) {
                let (mut lo, mut hi) = (l.k, l.k);
                for ((x, s), k) in &l.t { let q = self.leaf_rng(st, *x, *s, memo, fuel); let (p, q) = (q.0.checked_mul(*k)?, q.1.checked_mul(*k)?); lo = lo.checked_add(p.min(q))?; hi = hi.checked_add(p.max(q))?; }
                l.r = (l.r.0.max(lo), l.r.1.min(hi)); if l.r.0 > l.r.1 { return None; }
            }
        }
        if let Some(l) = &mut r { // known bounds of the expression itself
            if l.r.0 >= 0 && l.r.1 <= mask(w) as i128 { let b = self.rng(st, e); l.r = (l.r.0.max(b.0 as i128), l.r.1.min(b.1 as i128)); if l.r.0 > l.r.1 { return None; } }
        }
        if r.is_none() { let q = self.leaf_rng(st, e, false, memo, fuel); r = Some(if q.0 == q.1 { Lin { t: vec![], k: q.0, r: q, m: 127 } } else { Lin { t: vec![((e, false), 1)], k: 0, r: q, m: 127 } }); }
        memo.insert(e, r.clone());
        r
    }
    /// Decide a symbolic condition; the other feasible side is returned as a state (already constrained).
    pub fn branch_raw(&mut self, st: &mut State, c: Ex) -> R<(bool, Option<State>)> {
        let c = self.simp(st, c);
        if let Some(b) = self.decide(st, c) { self.st.interval += 1; return Ok((b, None)); }
        if let Some(v) = self.p.cv(c) { return Ok((v == 1, None)); }
        let nc = self.p.not(c);
        let fp = self.p.has_fp(c);
        let take;
        let other;
        if fp {
            let a = self.sat(st, c)?;
            let b = self.sat(st, nc)?;
            match (a, b) {
                (Some(m), o) => { take = true; let mut os = None; if let Some(om) = o { let mut s2 = st.clone(); self.apply_model(&mut s2, &om); self.add(&mut s2, nc); os = Some(s2); } self.apply_model(st, &m); other = os; }
                (None, Some(m)) => { take = false; self.apply_model(st, &m); other = None; }
                _ => return Err(Ctl::Kill),
            }
        } else {
            take = self.eval(st, c) == 1;
            let oc = if take { nc } else { c };
            other = match self.sat(st, oc)? { Some(m) => { let mut s2 = st.clone(); self.apply_model(&mut s2, &m); self.add(&mut s2, oc); s2.depth += 1; Some(s2) } None => None };
        }
        self.add(st, if take { c } else { nc });
        if other.is_some() { self.st.forks += 1; st.depth += 1; }
        Ok((take, other))
    }
    /// Decide inside a restartable operation.
    pub fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        let (t, o) = self.branch_raw(st, c)?;
        if let Some(o) = o { self.pending.push(o); }
        Ok(t)
    }
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> R<u128> {
        let e = match v { Val::S(e) => *e, v => return Ok(v.cv().unwrap()) };
        let e = self.simp(st, e);
        if let Some(v) = self.p.cv(e) { return Ok(v); }
        let x = self.eval(st, e);
        let k = self.p.c(w, x);
        let eq = self.p.eq(e, k);
        let (t, o) = self.branch_raw(st, eq)?;
        if let Some(o) = o { self.pending.push(o); }
        if !t { return Err(Ctl::Unsup("concretisation".into())); }
        Ok(x)
    }
    pub fn assume(&mut self, st: &mut State, c: Ex) -> R<()> {
        let c = self.simp(st, c);
        match self.p.cv(c) { Some(1) => return Ok(()), Some(_) => return Err(Ctl::Kill), None => {} }
        match self.decide(st, c) { Some(true) => return Ok(()), Some(false) => return Err(Ctl::Kill), None => {} }
        if self.p.has_fp(c) || self.eval(st, c) != 1 { match self.sat(st, c)? { Some(m) => self.apply_model(st, &m), None => return Err(Ctl::Kill) } }
        self.add(st, c);
        Ok(())
    }
    pub fn new_var(&mut self, st: &mut State, w: u16) -> Ex {
        let k = (st.inputs.len(), w);
        let vi = match self.varkey.get(&k) { Some(v) => *v, None => { let e = self.p.var(w); self.vars.push(e); let vi = self.p.n(e).a; self.varkey.insert(k, vi); vi } };
        st.inputs.push((vi, w));
        if let Some(v) = force(st.inputs.len() - 1) { self.apply_model(st, &[(vi, v)]); return self.p.c(w, v); } // debugging: follow one given run
        self.vars[vi as usize]
    }
    // ------------------------------------------------------------ memory
    pub fn materialize(&mut self, st: &mut State, id: u32) -> R<()> {
        if let Some((b, ro)) = self.gcache.get(&id) { st.mem.put(id, b.clone(), Kind::Global, *ro); return Ok(()); }
        match &self.m.globals[id as usize - 1].kind {
            GKind::Func { .. } => return Err(Ctl::Viol("bad-access".into(), format!("data access to function {}", self.m.globals[id as usize - 1].name))),
            _ => {}
        }
        let name = self.m.globals[id as usize - 1].name.clone();
        let (b, ro) = match self.m.global_init(id) { Ok(x) => x, Err(e) => match crate::ext::ext_global(&name) { Some(b) => (b, false), None => return Err(Ctl::Unsup(e)) } };
        st.mem.put(id, b.clone(), Kind::Global, ro);
        self.gcache.insert(id, (b, ro));
        Ok(())
    }
    /// Make the address concrete down to an object; a symbolic offset is concretised by forking.
    pub fn addr(&mut self, st: &mut State, p: &Val, n: u64) -> R<u64> {
        let a = match p { Val::C(a) => *a, Val::S(_) => self.concretize(st, p, 64)? as u64, _ => return Err(Ctl::Unsup("pointer".into())) };
        if n > 0 { self.ensure(st, a, n)?; }
        Ok(a)
    }
    pub fn ensure(&mut self, st: &mut State, a: u64, n: u64) -> R<()> {
        match st.mem.get(a, n, self.ng) { Ok(_) => Ok(()), Err(MErr::Lazy(id)) => { self.materialize(st, id)?; match st.mem.get(a, n, self.ng) { Ok(_) => Ok(()), Err(e) => Err(merr(e)) } } Err(e) => Err(merr(e)) }
    }
    pub fn rd(&mut self, st: &mut State, a: u64, n: usize) -> R<Val> {
        loop {
            let e = match st.mem.get(a, n as u64, self.ng) { Ok((o, off)) => return Ok(o.read(&mut self.p, off, n)), Err(e) => e };
            match e { MErr::Lazy(id) => self.materialize(st, id)?, e => return Err(merr(e)) }
        }
    }
    pub fn wr(&mut self, st: &mut State, a: u64, n: usize, v: &Val) -> R<()> {
        loop {
            let e = match st.mem.get_mut(a, n as u64, self.ng) {
                Ok((o, off)) => { match v { Val::C(x) => o.write_c(off, n, *x as u128), Val::W(x) => o.write_c(off, n, **x), Val::S(e) => o.write_s(&mut self.p, off, n, *e), Val::A(_) => return Err(Ctl::Unsup("agg store".into())) } return Ok(()); }
                Err(e) => e };
            match e { MErr::Lazy(id) => self.materialize(st, id)?, e => return Err(merr(e)) }
        }
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        self.ensure(st, s, n)?; self.ensure(st, d, n)?;
        let (b, sy) = { let (o, off) = st.mem.get(s, n, self.ng).map_err(merr)?; (o.b[off..off + n as usize].to_vec(), if o.conc(off, n as usize) { None } else { Some(o.s.as_ref().unwrap()[off..off + n as usize].to_vec()) }) };
        let (o, off) = st.mem.get_mut(d, n, self.ng).map_err(merr)?;
        o.b[off..off + n as usize].copy_from_slice(&b);
        let len = o.b.len();
        match sy {
            Some(sy) => { let s = o.s.get_or_insert_with(|| vec![CONC; len]); s[off..off + n as usize].copy_from_slice(&sy); }
            None => if let Some(s) = &mut o.s { for x in &mut s[off..off + n as usize] { *x = CONC; } }
        }
        Ok(())
    }
    pub fn bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<Ex>> {
        if n == 0 { return Ok(vec![]); }
        self.ensure(st, a, n)?;
        let (o, off) = st.mem.get(a, n, self.ng).map_err(merr)?;
        let o = o.clone();
        Ok((0..n as usize).map(|k| o.byte(&mut self.p, off + k)).collect())
    }
    pub fn conc_bytes(&mut self, st: &mut State, a: u64, n: u64) -> Option<Vec<u8>> {
        let bs = self.bytes(st, a, n).ok()?;
        bs.iter().map(|e| { let e = self.simp(st, *e); self.p.cv(e).map(|x| x as u8) }).collect()
    }
    /// Symbolic address: resolve the object (forking), make sure the access is in bounds (reporting otherwise).
    /// Returns (object base, offset expression, lo, hi, stride)
    fn resolve(&mut self, st: &mut State, e: Ex, n: u64) -> R<(u64, Ex, u64, u64, u64)> {
        let id = self.p.extract(e, 32, 32);
        let v = self.mk(id);
        let idc = self.concretize(st, &v, 32)? as u32;
        let base = (idc as u64) << 32;
        if let Err(MErr::Lazy(g)) = st.mem.get(base, 0, self.ng) { self.materialize(st, g)?; }
        let size = match st.mem.get(base, 0, self.ng) { Ok((o, _)) => o.b.len() as u64, Err(x) => return Err(merr(x)) };
        let off = self.p.extract(e, 0, 32);
        let off = self.simp(st, off);
        if let Some(o) = self.p.cv(off) { return Ok((base, off, o as u64, o as u64, 1)); }
        if size < n { return Err(Ctl::Viol("out-of-bounds".into(), format!("access in an object of {} bytes", size))); }
        let (lo, hi) = self.rng(st, off);
        if hi > (size - n) as u128 {
            let lim = self.p.c(32, (size - n) as u128);
            let ok = self.p.cmp(Op::Ule, off, lim);
            let t = self.branch(st, ok)?;
            if !t { return Err(Ctl::Viol("out-of-bounds".into(), format!("access at offset {} of an object of {} bytes", self.eval(st, off), size))); }
        }
        let tz = self.p.tz(off).min(20);
        let stride = 1u64 << tz;
        let lo = (lo as u64 + stride - 1) / stride * stride;
        Ok((base, off, lo, (hi as u64).min(size - n), stride))
    }
    pub fn load_scalar(&mut self, st: &mut State, p: &Val, n: usize) -> R<Val> {
        match p {
            Val::C(a) => self.rd(st, *a, n),
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(v) = self.p.cv(e) { return self.rd(st, v as u64, n); }
                let (base, off, mut lo, mut hi, stride) = self.resolve(st, e, n as u64)?;
                if let Some(o) = self.p.cv(off) { return self.rd(st, base + o as u64, n); }
                if (hi - lo) / stride > 64 {
                    // tighten by solver (binary search is overkill: probe powers)
                    let (l2, h2) = self.tighten(st, off, lo, hi)?; lo = (l2 + stride - 1) / stride * stride; hi = h2;
                }
                let cnt = (hi - lo) / stride + 1;
                if cnt > 4096 { let a = self.concretize(st, &Val::S(e), 64)? as u64; return self.rd(st, a, n); }
                let mut vals: Vec<(u64, Ex)> = vec![];
                let o = st.mem.get(base, 0, self.ng).map_err(merr)?.0.clone();
                let mut k = lo;
                while k <= hi { let v = o.read(&mut self.p, k as usize, n); let v = self.ex(&v, n as u16 * 8); if vals.last().map(|x| x.1) != Some(v) { vals.push((k, v)); } k += stride; }
                let r = self.tree(&vals, off);
                Ok(self.mk(r))
            }
            _ => Err(Ctl::Unsup("pointer value".into())),
        }
    }
    fn tighten(&mut self, st: &mut State, off: Ex, lo: u64, hi: u64) -> R<(u64, u64)> {
        let cur = self.eval(st, off) as u64;
        let (mut a, mut b) = (cur, hi); // find max feasible in [cur,hi]
        while a < b { let mid = a + (b - a + 1) / 2; let k = self.p.c(32, mid as u128); let c = self.p.cmp(Op::Ule, k, off); match self.sat(st, c)? { Some(m) => { let mm: FxMap<u32, u128> = m.iter().copied().collect(); let md = st.model.clone(); let v = self.p.eval(off, &|i| mm.get(&i).copied().unwrap_or_else(|| md.get(i as usize).copied().unwrap_or(0))) as u64; a = v.max(mid).min(b); } None => b = mid - 1 } }
        let h = a;
        let (mut a, mut b) = (lo, cur);
        while a < b { let mid = a + (b - a) / 2; let k = self.p.c(32, mid as u128); let c = self.p.cmp(Op::Ule, off, k); match self.sat(st, c)? { Some(_) => b = mid, None => a = mid + 1 } }
        Ok((a, h))
    }
    fn tree(&mut self, v: &[(u64, Ex)], off: Ex) -> Ex {
        if v.len() == 1 { return v[0].1; }
        let mid = v.len() / 2;
        let l = self.tree(&v[..mid], off); let r = self.tree(&v[mid..], off);
        let k = self.p.c(32, v[mid].0 as u128);
        let c = self.p.cmp(Op::Ult, off, k);
        self.p.ite(c, l, r)
    }
    pub fn store_scalar(&mut self, st: &mut State, p: &Val, n: usize, v: &Val) -> R<()> {
        match p {
            Val::C(a) => self.wr(st, *a, n, v),
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(a) = self.p.cv(e) { return self.wr(st, a as u64, n, v); }
                let (base, off, lo, hi, stride) = self.resolve(st, e, n as u64)?;
                if let Some(o) = self.p.cv(off) { return self.wr(st, base + o as u64, n, v); }
                let cnt = (hi - lo) / stride + 1;
                if cnt > 64 || stride < n as u64 { let a = self.concretize(st, &Val::S(e), 64)? as u64; return self.wr(st, a, n, v); }
                let ve = self.ex(v, n as u16 * 8);
                let mut k = lo;
                while k <= hi {
                    let old = self.rd(st, base + k, n)?; let old = self.ex(&old, n as u16 * 8);
                    let kc = self.p.c(32, k as u128); let c = self.p.eq(off, kc);
                    let nv = self.p.ite(c, ve, old); let nv = self.mk(nv);
                    self.wr(st, base + k, n, &nv)?;
                    k += stride;
                }
                Ok(())
            }
            _ => Err(Ctl::Unsup("pointer value".into())),
        }
    }
    fn add_off(&mut self, p: &Val, o: u64) -> Val { match p { Val::C(a) => Val::C(a.wrapping_add(o)), Val::S(e) => { let k = self.p.c(64, o as u128); let r = self.p.bin(Op::Add, *e, k); self.mk(r) } v => v.clone() } }
    pub fn load_ty(&mut self, st: &mut State, p: &Val, ty: TyId) -> R<Val> {
        let t = self.m.types.t(ty);
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = self.m.types.bits(ty);
                let n = ((w + 7) / 8) as usize;
                let v = self.load_scalar(st, p, n)?;
                if w % 8 != 0 { return Ok(match v { Val::S(e) => { let x = self.p.extract(e, 0, w); self.mk(x) } v => Val::c(v.cv().unwrap() & mask(w)) }); }
                Ok(v)
            }
            Ty::Arr(n, e) => { let (n, e) = (*n, *e); let sz = self.m.types.size(e); let mut v = vec![]; for k in 0..n { let q = self.add_off(p, k * sz); v.push(self.load_ty(st, &q, e)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e); let w = self.m.types.bits(e);
                if w % 8 != 0 { let tot = w * n as u16; let it = self.m.types.intern(Ty::Int(tot)); let x = self.load_ty(st, p, it)?; let x = self.ex(&x, tot); let v = (0..n).map(|k| { let y = self.p.extract(x, k as u16 * w, w); self.mk(y) }).collect(); return Ok(Val::A(Rc::new(v))); }
                let sz = w as u64 / 8; let mut v = vec![]; for k in 0..n as u64 { let q = self.add_off(p, k * sz); v.push(self.load_ty(st, &q, e)?); } Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => { let fs = fs.clone(); let offs = self.m.types.offs[ty as usize].clone(); let mut v = vec![]; for (k, f) in fs.iter().enumerate() { let q = self.add_off(p, offs[k]); v.push(self.load_ty(st, &q, *f)?); } Ok(Val::A(Rc::new(v))) }
            t => Err(Ctl::Unsup(format!("load of {:?}", t))),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, p: &Val, ty: TyId, v: &Val) -> R<()> {
        match self.m.types.t(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => { let w = self.m.types.bits(ty); let n = ((w + 7) / 8) as usize; let v2; let v = if w % 8 != 0 { if let Val::S(e) = v { let z = self.p.zext(*e, n as u16 * 8); v2 = self.mk(z); &v2 } else { v } } else { v }; self.store_scalar(st, p, n, v) }
            Ty::Arr(_, e) => { let e = *e; let sz = self.m.types.size(e); if let Val::A(l) = v { for (k, x) in l.iter().enumerate() { let q = self.add_off(p, k as u64 * sz); self.store_ty(st, &q, e, x)?; } } Ok(()) }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e); let w = self.m.types.bits(e);
                let l = if let Val::A(l) = v { l.clone() } else { return Err(Ctl::Unsup("vector store".into())) };
                if w % 8 != 0 { let mut acc = self.ex(&l[n as usize - 1].clone(), w); for k in (0..n as usize - 1).rev() { let y = self.ex(&l[k].clone(), w); acc = self.p.concat(acc, y); } let it = self.m.types.intern(Ty::Int(w * n as u16)); let x = self.mk(acc); return self.store_ty(st, p, it, &x); }
                let sz = w as u64 / 8; for (k, x) in l.iter().enumerate() { let q = self.add_off(p, k as u64 * sz); self.store_ty(st, &q, e, x)?; } Ok(())
            }
            Ty::Struct(fs, _) => { let fs = fs.clone(); let offs = self.m.types.offs[ty as usize].clone(); if let Val::A(l) = v { for (k, f) in fs.iter().enumerate() { let q = self.add_off(p, offs[k]); self.store_ty(st, &q, *f, &l[k].clone())?; } } Ok(()) }
            t => Err(Ctl::Unsup(format!("store of {:?}", t))),
        }
    }
    // ------------------------------------------------------------ scalar operations
    pub fn bin(&mut self, st: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        use BinOp::*;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let (x, y) = (*x, *y);
                match op {
                    Add => return Ok(Val::C(x.wrapping_add(y) & m)), Sub => return Ok(Val::C(x.wrapping_sub(y) & m)), Mul => return Ok(Val::C(x.wrapping_mul(y) & m)),
                    And => return Ok(Val::C(x & y)), Or => return Ok(Val::C(x | y)), Xor => return Ok(Val::C(x ^ y)),
                    Shl => return Ok(Val::C(if y >= w as u64 { 0 } else { (x << y) & m })), LShr => return Ok(Val::C(if y >= w as u64 { 0 } else { x >> y })),
                    _ => {}
                }
            }
        }
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let o = match op { FAdd => Op::FAdd, FSub => Op::FSub, FMul => Op::FMul, FDiv => Op::FDiv, _ => Op::FRem };
            let r = self.p.fp(o, w, x, y, 0);
            return Ok(self.mk(r));
        }
        let o = match op { Add => Op::Add, Sub => Op::Sub, Mul => Op::Mul, UDiv => Op::UDiv, SDiv => Op::SDiv, URem => Op::URem, SRem => Op::SRem, And => Op::And, Or => Op::Or, Xor => Op::Xor, Shl => Op::Shl, LShr => Op::LShr, _ => Op::AShr };
        if matches!(op, UDiv | SDiv | URem | SRem) {
            match b {
                Val::S(e) => { let z = self.p.c(w, 0); let c = self.p.eq(*e, z); if self.branch(st, c)? { return Err(Ctl::Viol("division-by-zero".into(), "division by zero".into())); } }
                v => if v.cv() == Some(0) { return Err(Ctl::Viol("division-by-zero".into(), "division by zero".into())); }
            }
            if matches!(op, SDiv | SRem) {
                let min = self.p.c(w, 1u128 << (w - 1)); let m1 = self.p.c(w, mask(w));
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let c1 = self.p.eq(x, min); let c2 = self.p.eq(y, m1); let c = self.p.bin(Op::And, c1, c2);
                if self.p.cv(c) != Some(0) && self.branch(st, c)? { return Err(Ctl::Viol("division-overflow".into(), "signed division overflow (INT_MIN / -1)".into())); }
            }
        }
        if let (Some(x), Some(y)) = (a.cv(), b.cv()) { return Ok(Val::c(fold(o, w, x, y))); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut o = o;
        if matches!(o, Op::SDiv | Op::SRem | Op::UDiv | Op::URem) {
            // use what the path condition says about the operands
            let (x1, y1) = (self.simp(st, x), self.simp(st, y));
            let (rx, ry) = (self.rng(st, x1), self.rng(st, y1));
            let h = 1u128 << (w - 1);
            if rx.1 < h && ry.1 < h { o = if matches!(o, Op::SDiv | Op::UDiv) { Op::UDiv } else { Op::URem }; }
            if matches!(o, Op::UDiv | Op::URem) && ry.0 > 0 {
                let need = ((128 - rx.1.max(ry.1).leading_zeros()) as u16 + 7) / 8 * 8;
                if need > 0 && need < w { let xs = self.p.extract(x1, 0, need); let ys = self.p.extract(y1, 0, need); let r = self.p.bin(o, xs, ys); let r = self.p.zext(r, w); return Ok(self.mk(r)); }
            }
            let r = self.p.bin(o, x1, y1);
            return Ok(self.mk(r));
        }
        let r = self.p.bin(o, x, y);
        Ok(self.mk(r))
    }
    pub fn icmp(&mut self, p: IPred, w: u16, a: &Val, b: &Val) -> Val {
        use IPred::*;
        if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
            let (sx_, sy) = (sx(x, w), sx(y, w));
            return Val::C(match p { Eq => x == y, Ne => x != y, Ult => x < y, Ule => x <= y, Ugt => x > y, Uge => x >= y, Slt => sx_ < sy, Sle => sx_ <= sy, Sgt => sx_ > sy, Sge => sx_ >= sy } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Eq => self.p.eq(x, y), Ne => { let e = self.p.eq(x, y); self.p.not(e) }
            Ult => self.p.cmp(Op::Ult, x, y), Ule => self.p.cmp(Op::Ule, x, y), Ugt => self.p.cmp(Op::Ult, y, x), Uge => self.p.cmp(Op::Ule, y, x),
            Slt => self.p.cmp(Op::Slt, x, y), Sle => self.p.cmp(Op::Sle, x, y), Sgt => self.p.cmp(Op::Slt, y, x), Sge => self.p.cmp(Op::Sle, y, x),
        };
        self.mk(r)
    }
    pub fn fcmp(&mut self, p: u8, w: u16, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if p == 0 { return Val::C(0); } if p == 15 { return Val::C(1); }
        let n1 = self.p.fp(Op::FIsNan, 1, x, NONE, 0); let n2 = self.p.fp(Op::FIsNan, 1, y, NONE, 0);
        let uno = self.p.bin(Op::Or, n1, n2);
        // preds: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 ueq 9 ugt 10 uge 11 ult 12 ule 13 une 14 uno
        let base = |s: &mut Self, k: u8| match k { 1 => s.p.fp(Op::FEq, 1, x, y, 0), 2 => s.p.fp(Op::FLt, 1, y, x, 0), 3 => s.p.fp(Op::FLe, 1, y, x, 0), 4 => s.p.fp(Op::FLt, 1, x, y, 0), _ => s.p.fp(Op::FLe, 1, x, y, 0) };
        let r = match p {
            1..=5 => base(self, p),
            6 => { let e = self.p.fp(Op::FEq, 1, x, y, 0); let o = self.p.bin(Op::Or, e, uno); self.p.not(o) }
            7 => self.p.not(uno), 14 => uno,
            13 => { let e = self.p.fp(Op::FEq, 1, x, y, 0); self.p.not(e) }
            8..=12 => { let e = base(self, p - 7); self.p.bin(Op::Or, e, uno) }
            _ => unreachable!(),
        };
        self.mk(r)
    }
    fn cast1(&mut self, st: &mut State, k: Cast, fw: u16, tw: u16, a: &Val) -> R<Val> {
        let _ = st;
        if let Val::C(x) = a {
            match k { Cast::Trunc => return Ok(Val::c(*x as u128 & mask(tw))), Cast::ZExt | Cast::Bit => return Ok(a.clone()), Cast::SExt => return Ok(Val::c(sx(*x as u128, fw) as u128 & mask(tw))), _ => {} }
        }
        let e = self.ex(a, fw);
        let r = match k {
            Cast::Trunc => self.p.extract(e, 0, tw), Cast::ZExt => self.p.zext(e, tw), Cast::SExt => self.p.sext(e, tw), Cast::Bit => e,
            Cast::FToSI => self.p.fp(Op::FToSI, tw, e, NONE, 0), Cast::FToUI => self.p.fp(Op::FToUI, tw, e, NONE, 0),
            Cast::SIToF => self.p.fp(Op::SIToF, tw, e, NONE, 0), Cast::UIToF => self.p.fp(Op::UIToF, tw, e, NONE, 0),
            Cast::FTrunc | Cast::FExt => self.p.fp(Op::FToF, tw, e, NONE, 0),
        };
        Ok(self.mk(r))
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: TyId, to: TyId, a: &Val) -> R<Val> {
        let (fv, tv) = (matches!(self.m.types.t(from), Ty::Vector(..)), matches!(self.m.types.t(to), Ty::Vector(..)));
        if k == Cast::Bit && (fv || tv) {
            // reinterpret lanes
            let (fe, fnn) = match self.m.types.t(from) { Ty::Vector(n, e) => (self.m.types.bits(*e), *n), _ => (self.m.types.bits(from), 1) };
            let (te, tn) = match self.m.types.t(to) { Ty::Vector(n, e) => (self.m.types.bits(*e), *n), _ => (self.m.types.bits(to), 1) };
            let lanes: Vec<Val> = match a { Val::A(l) => l.to_vec(), v => vec![v.clone()] };
            debug_assert_eq!(lanes.len(), fnn as usize);
            if fe == te { return Ok(if tv { Val::A(Rc::new(lanes)) } else { lanes[0].clone() }); }
            let mut out = vec![];
            if fe < te {
                let g = (te / fe) as usize;
                if te % fe != 0 { return Err(Ctl::Unsup("bitcast".into())); }
                for k in 0..tn as usize { let mut acc = self.ex(&lanes[k * g + g - 1], fe); for j in (0..g - 1).rev() { let y = self.ex(&lanes[k * g + j], fe); acc = self.p.concat(acc, y); } out.push(self.mk(acc)); }
            } else {
                if fe % te != 0 { return Err(Ctl::Unsup("bitcast".into())); }
                let g = fe / te;
                for l in &lanes { let e = self.ex(l, fe); for j in 0..g { let y = self.p.extract(e, j * te, te); out.push(self.mk(y)); } }
            }
            return Ok(if tv { Val::A(Rc::new(out)) } else { out[0].clone() });
        }
        if let (Ty::Vector(_, fe), Ty::Vector(_, te)) = (self.m.types.t(from), self.m.types.t(to)) {
            let (fw, tw) = (self.m.types.bits(*fe), self.m.types.bits(*te));
            if let Val::A(l) = a { let mut v = vec![]; for x in l.iter() { v.push(self.cast1(st, k, fw, tw, x)?); } return Ok(Val::A(Rc::new(v))); }
        }
        let (fw, tw) = (self.m.types.bits(from), self.m.types.bits(to));
        self.cast1(st, k, fw, tw, a)
    }
    pub fn select(&mut self, st: &mut State, ty: TyId, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(v) = self.p.cv(e) { return Ok(if v == 1 { a.clone() } else { b.clone() }); }
                if let Some(v) = self.decide(st, e) { return Ok(if v { a.clone() } else { b.clone() }); }
                self.ite_val(ty, e, a, b)
            }
            v => Ok(if v.cv() == Some(1) { a.clone() } else { b.clone() }),
        }
    }
    pub fn ite_val(&mut self, ty: TyId, c: Ex, a: &Val, b: &Val) -> R<Val> {
        match self.m.types.t(ty).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => { let w = self.m.types.bits(ty); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.p.ite(c, x, y); Ok(self.mk(r)) }
            Ty::Arr(_, e) | Ty::Vector(_, e) => { if let (Val::A(x), Val::A(y)) = (a, b) { let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(self.ite_val(e, c, p, q)?); } Ok(Val::A(Rc::new(v))) } else { Err(Ctl::Unsup("select".into())) } }
            Ty::Struct(fs, _) => { if let (Val::A(x), Val::A(y)) = (a, b) { let mut v = vec![]; for (k, f) in fs.iter().enumerate() { v.push(self.ite_val(*f, c, &x[k], &y[k])?); } Ok(Val::A(Rc::new(v))) } else { Err(Ctl::Unsup("select".into())) } }
            _ => Err(Ctl::Unsup("select type".into())),
        }
    }
    pub fn goto(&mut self, st: &mut State, bb: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let blk = &f.blocks[bb as usize];
        fr.prev = fr.bb;
        if !blk.phis.is_empty() {
            let prev = fr.bb;
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == prev).expect("phi edge").1;
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut vals: Vec<Val> = Vec::with_capacity(blk.phis.len());
                for (_, inc) in &blk.phis { let o = &inc.iter().find(|x| x.0 == prev).expect("phi edge").1; vals.push(match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }); }
                for ((d, _), v) in blk.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.bb = bb; fr.ip = 0;
    }
    /// types whose values are joined where paths meet
    fn plain(&self, t: TyId) -> bool {
        match self.m.types.t(t) { Ty::Int(_) => true, Ty::Struct(fs, _) => fs.clone().iter().all(|f| self.plain(*f)), _ => false }
    }
    /// To bb from whichever of the given blocks' condition holds.
    fn goto_any(&mut self, st: &mut State, bb: u32, from: &[(u32, Ex)]) -> R<()> {
        if from.is_empty() { self.goto(st, bb); return Ok(()); }
        let f = st.frames.last().unwrap().f.clone();
        let blk = &f.blocks[bb as usize];
        let mut vals: Vec<(u32, Val)> = vec![];
        for ((d, inc), t) in blk.phis.iter().zip(&blk.ptys) {
            let mut v: Option<Val> = None;
            for (pred, q) in from.iter().rev() {
                let x = match &inc.iter().find(|x| x.0 == *pred).expect("phi edge").1 { Opd::K(x) => x.clone(), _ => unreachable!() };
                v = Some(match v { None => x, Some(y) => { let q = self.simp(st, *q); self.ite_val(*t, q, &x, &y)? } });
            }
            vals.push((*d, v.unwrap()));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.prev = fr.bb; fr.bb = bb; fr.ip = 0;
        Ok(())
    }
    fn lanes2(&self, a: &Val, b: &Val) -> R<(Rc<Vec<Val>>, Rc<Vec<Val>>)> { match (a, b) { (Val::A(x), Val::A(y)) => Ok((x.clone(), y.clone())), _ => Err(Ctl::Unsup("vector operand".into())) } }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let ins: *const Ins = &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize];
        let ins: &Ins = unsafe { &*ins }; // function bodies are cached in the module for the whole run
        match ins {
            Ins::Bin { op, w, lanes, dst, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *lanes == 0 { self.bin(st, *op, *w, &x, &y)? } else { let (x, y) = self.lanes2(&x, &y)?; let mut v = Vec::with_capacity(x.len()); for k in 0..x.len() { v.push(self.bin(st, *op, *w, &x[k], &y[k])?); } Val::A(Rc::new(v)) };
                self.set(st, *dst, r);
            }
            Ins::ICmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *lanes == 0 { self.icmp(*p, *w, &x, &y) } else { let (x, y) = self.lanes2(&x, &y)?; Val::A(Rc::new((0..x.len()).map(|k| self.icmp(*p, *w, &x[k], &y[k])).collect())) };
                self.set(st, *dst, r);
            }
            Ins::FCmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *lanes == 0 { self.fcmp(*p, *w, &x, &y) } else { let (x, y) = self.lanes2(&x, &y)?; Val::A(Rc::new((0..x.len()).map(|k| self.fcmp(*p, *w, &x[k], &y[k])).collect())) };
                self.set(st, *dst, r);
            }
            Ins::FNeg { w, lanes, dst, a } => {
                let x = self.opd(st, a);
                let sg = Val::c(1u128 << (w - 1));
                let r = if *lanes == 0 { self.bin(st, BinOp::Xor, *w, &x, &sg)? } else if let Val::A(l) = x { let mut v = vec![]; for y in l.iter() { v.push(self.bin(st, BinOp::Xor, *w, y, &sg)?); } Val::A(Rc::new(v)) } else { return Err(Ctl::Unsup("fneg".into())) };
                self.set(st, *dst, r);
            }
            Ins::Cast { k, from, to, dst, a } => { let x = self.opd(st, a); let r = self.cast(st, *k, *from, *to, &x)?; self.set(st, *dst, r); }
            Ins::Select { ty, cvec, dst, c, a, b } => {
                let (cv, x, y) = (self.opd(st, c), self.opd(st, a), self.opd(st, b));
                let r = if *cvec {
                    let ety = match self.m.types.t(*ty) { Ty::Vector(_, e) => *e, _ => return Err(Ctl::Unsup("select".into())) };
                    if let Val::A(cl) = &cv { let (x, y) = self.lanes2(&x, &y)?; let mut v = vec![]; for k in 0..x.len() { v.push(self.select(st, ety, &cl[k], &x[k], &y[k])?); } Val::A(Rc::new(v)) } else { return Err(Ctl::Unsup("select".into())) }
                } else { self.select(st, *ty, &cv, &x, &y)? };
                self.set(st, *dst, r);
            }
            Ins::Gep { dst, base, off, idx, lanes } => {
                if *lanes > 0 { return Err(Ctl::Unsup("vector gep".into())); }
                let b = self.opd(st, base);
                if let Val::C(b0) = &b {
                    let mut acc = b0.wrapping_add(*off as u64); let mut ok = true;
                    for (o, iw, s) in idx { match self.opd(st, o) { Val::C(x) => acc = acc.wrapping_add((sx(x as u128, *iw) as i64).wrapping_mul(*s) as u64), _ => { ok = false; break; } } }
                    if ok { self.set(st, *dst, Val::C(acc)); st.frames.last_mut().unwrap().ip += 1; return Ok(()); }
                }
                let mut acc = self.ex(&b, 64);
                for (o, iw, s) in idx {
                    let v = self.opd(st, o); let e = self.ex(&v, *iw); let e = self.p.sext(e, 64); let k = self.p.c(64, *s as u64 as u128);
                    let t = self.p.bin(Op::Mul, e, k); acc = self.p.bin(Op::Add, acc, t);
                }
                let k = self.p.c(64, *off as u64 as u128); acc = self.p.bin(Op::Add, acc, k);
                let r = self.mk(acc); self.set(st, *dst, r);
            }
            Ins::Load { ty, dst, p } => { let a = self.opd(st, p); let v = self.load_ty(st, &a, *ty)?; self.set(st, *dst, v); }
            Ins::Store { ty, v, p } => { let a = self.opd(st, p); let x = self.opd(st, v); self.store_ty(st, &a, *ty, &x)?; }
            Ins::Alloca { ty, n, dst } => {
                let k = self.opd(st, n); let k = self.concretize(st, &k, 64)? as u64;
                let sz = self.m.types.size(*ty) * k;
                let a = st.mem.alloc(sz as usize, 0xA5, Kind::Stack);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.set(st, *dst, Val::C(a));
            }
            Ins::ExtractV { dst, a, idx } => { let mut v = self.opd(st, a); for i in idx { v = match &v { Val::A(l) => l[*i as usize].clone(), _ => return Err(Ctl::Unsup("extractvalue".into())) }; } self.set(st, *dst, v); }
            Ins::InsertV { dst, a, v, idx } => {
                let mut x = self.opd(st, a); let y = self.opd(st, v);
                fn ins(x: &mut Val, idx: &[u32], y: Val) { if idx.is_empty() { *x = y; return; } if let Val::A(l) = x { ins(&mut Rc::make_mut(l)[idx[0] as usize], &idx[1..], y) } }
                ins(&mut x, idx, y);
                self.set(st, *dst, x);
            }
            Ins::ExtractE { dst, a, i, n, ety } => {
                let v = self.opd(st, a); let i = self.opd(st, i);
                let l = match v { Val::A(l) => l, _ => return Err(Ctl::Unsup("extractelement".into())) };
                let r = match i {
                    Val::S(e) => { let w = self.p.w(e); let mut r = l[0].clone(); for k in 1..*n { let kc = self.p.c(w, k as u128); let c = self.p.eq(e, kc); r = self.ite_val(*ety, c, &l[k as usize].clone(), &r)?; } r }
                    v => l.get(v.cv().unwrap() as usize).cloned().unwrap_or(Val::C(0)),
                };
                self.set(st, *dst, r);
            }
            Ins::InsertE { dst, a, v, i, n: _ } => {
                let x = self.opd(st, a); let y = self.opd(st, v); let i = self.opd(st, i);
                let i = self.concretize(st, &i, 64).or_else(|_| Err(Ctl::Unsup("insertelement".into())))?;
                let mut l = match x { Val::A(l) => l, _ => return Err(Ctl::Unsup("insertelement".into())) };
                if (i as usize) < l.len() { Rc::make_mut(&mut l)[i as usize] = y; }
                self.set(st, *dst, Val::A(l));
            }
            Ins::Shuffle { dst, a, b, n, mask: mk } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let (x, y) = self.lanes2(&x, &y)?;
                let v = mk.iter().map(|k| { let k = (*k).max(0) as u32; if k < *n { x[k as usize].clone() } else { y[(k - *n) as usize].clone() } }).collect();
                self.set(st, *dst, Val::A(Rc::new(v)));
            }
            Ins::Copy { dst, a } => { let v = self.opd(st, a); self.set(st, *dst, v); }
            Ins::Rmw { op, w, dst, p, v } => {
                let a = self.opd(st, p); let y = self.opd(st, v); let n = (*w / 8) as usize;
                let a = Val::C(self.addr(st, &a, n as u64)?);
                let x = self.load_scalar(st, &a, n)?;
                let nv = match op {
                    RmwOp::Xchg => y, RmwOp::Add => self.bin(st, BinOp::Add, *w, &x, &y)?, RmwOp::Sub => self.bin(st, BinOp::Sub, *w, &x, &y)?,
                    RmwOp::And => self.bin(st, BinOp::And, *w, &x, &y)?, RmwOp::Or => self.bin(st, BinOp::Or, *w, &x, &y)?, RmwOp::Xor => self.bin(st, BinOp::Xor, *w, &x, &y)?,
                    RmwOp::Nand => { let t = self.bin(st, BinOp::And, *w, &x, &y)?; self.bin(st, BinOp::Xor, *w, &t, &Val::c(mask(*w)))? }
                    o => { let pr = match o { RmwOp::Max => IPred::Sgt, RmwOp::Min => IPred::Slt, RmwOp::UMax => IPred::Ugt, _ => IPred::Ult }; let c = self.icmp(pr, *w, &x, &y); let c = self.ex(&c, 1); let (xe, ye) = (self.ex(&x, *w), self.ex(&y, *w)); let r = self.p.ite(c, xe, ye); self.mk(r) }
                };
                self.store_scalar(st, &a, n, &nv)?;
                self.set(st, *dst, x);
            }
            Ins::CmpXchg { w, dst, p, c, n } => {
                let a = self.opd(st, p); let cv = self.opd(st, c); let nv = self.opd(st, n); let k = ((*w + 7) / 8) as usize;
                let a = Val::C(self.addr(st, &a, k as u64)?);
                let x = self.load_scalar(st, &a, k)?;
                let eq = self.icmp(IPred::Eq, *w, &x, &cv);
                let t = match eq { Val::S(e) => self.branch(st, e)?, v => v.cv() == Some(1) };
                if t { self.store_scalar(st, &a, k, &nv)?; }
                self.set(st, *dst, Val::A(Rc::new(vec![x, Val::C(t as u64)])));
            }
            Ins::Call(c) => { return self.call(st, c); }
            Ins::Br(b) => { self.goto(st, *b); return Ok(()); }
            Ins::CondBr { c, t, f } => {
                match self.opd(st, c) {
                    Val::S(e) => {
                        let (tk, other) = self.branch_raw(st, e)?;
                        if let Some(mut o) = other { self.goto(&mut o, if tk { *f } else { *t }); self.pending.push(o); }
                        self.goto(st, if tk { *t } else { *f });
                    }
                    v => { let b = if v.cv() == Some(1) { *t } else { *f }; self.goto(st, b); }
                }
                return Ok(());
            }
            Ins::Switch { c, w, cases, def } => {
                match self.opd(st, c) {
                    Val::S(e) => {
                        let e = self.simp(st, e);
                        if let Some(v) = self.p.cv(e) { let b = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*def); self.goto(st, b); return Ok(()); }
                        // group by target
                        let mut targets: Vec<(u32, Ex)> = vec![];
                        let mut any = self.p.fls();
                        for (v, b) in cases {
                            let k = self.p.c(*w, *v); let q = self.p.eq(e, k);
                            any = self.p.bin(Op::Or, any, q);
                            match targets.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = self.p.bin(Op::Or, x.1, q), None => targets.push((*b, q)) }
                        }
                        let d = self.p.not(any);
                        match targets.iter_mut().find(|x| x.0 == *def) { Some(x) => x.1 = self.p.bin(Op::Or, x.1, d), None => targets.push((*def, d)) }
                        // targets that only go on to one block, with constants, are taken together
                        let fr = st.frames.last().unwrap(); let (f, cur) = (fr.f.clone(), fr.bb);
                        let mut groups: Vec<(u32, Ex, Vec<(u32, Ex)>)> = vec![];
                        for (b, q) in targets {
                            let bl = &f.blocks[b as usize];
                            let (m, pred) = match (&bl.ins[..], bl.phis.is_empty()) { ([Ins::Br(m)], true) => (*m, b), _ => (b, cur) };
                            let mb = &f.blocks[m as usize];
                            let konst = mb.phis.iter().zip(&mb.ptys).all(|((_, inc), t)| self.plain(*t) && matches!(inc.iter().find(|x| x.0 == pred), Some((_, Opd::K(_)))));
                            if !konst { groups.push((b, q, vec![])); continue; }
                            match groups.iter_mut().find(|x| x.0 == m && !x.2.is_empty()) { Some(x) => { x.1 = self.p.bin(Op::Or, x.1, q); x.2.push((pred, q)); } None => groups.push((m, q, vec![(pred, q)])) }
                        }
                        let mut mine = None;
                        let fp = self.p.has_fp(e);
                        for (k, g) in groups.iter().enumerate() { if !fp && self.eval(st, g.1) == 1 { mine = Some(k); break; } }
                        let mut first = None;
                        for (k, (b, q, ms)) in groups.iter().enumerate() {
                            if Some(k) == mine { continue; }
                            let q = self.simp(st, *q);
                            if let Some(m) = self.sat(st, q)? { let mut s2 = st.clone(); self.apply_model(&mut s2, &m); self.add(&mut s2, q); s2.depth += 1; self.goto_any(&mut s2, *b, ms)?; self.st.forks += 1; if mine.is_none() && first.is_none() { first = Some(s2) } else { self.pending.push(s2); } }
                        }
                        if let Some(k) = mine { let (b, q, ms) = &groups[k]; let q = self.simp(st, *q); self.add(st, q); self.goto_any(st, *b, ms)?; }
                        else if let Some(s) = first { *st = s; } else { return Err(Ctl::Kill); }
                    }
                    v => { let v = v.cv().unwrap(); let b = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*def); self.goto(st, b); }
                }
                return Ok(());
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.opd(st, o));
                return self.do_ret(st, v);
            }
            Ins::Unreachable => return Err(Ctl::Viol("unreachable".into(), "unreachable code executed".into())),
            Ins::Nop => {}
            Ins::Unsup(s) => return Err(Ctl::Unsup(s.clone())),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    pub fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas { st.mem.free_stack(a); }
        if st.frames.is_empty() { if st.cur != 0 { return Err(Ctl::Unsup("a thread returned".into())); } st.ret = v; return Err(Ctl::Done); }
        if let Some(v) = v { self.set(st, fr.dst, v); }
        match fr.next { Some(b) => self.goto(st, b), None => st.frames.last_mut().unwrap().ip += 1 }
        Ok(())
    }
    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let id = match &c.callee {
            Callee::Direct(id) => *id,
            Callee::Ind(o) => {
                let v = self.opd(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                let id = (a >> 32) as u32;
                if a as u32 != 0 || id == 0 || id > self.ng || !matches!(self.m.globals[id as usize - 1].kind, GKind::Func { .. }) { return Err(Ctl::Viol("bad-call".into(), format!("call through invalid function pointer {:#x}", a))); }
                id
            }
            Callee::Asm(t) => {
                if !t.trim().is_empty() && !t.starts_with('#') && t != "pause" { return Err(Ctl::Unsup(format!("inline asm {:?}", t))); }
                let v = if c.dst != u32::MAX { c.args.get(0).map(|o| self.opd(st, o)) } else { None };
                return self.finish_call(st, c.dst, c.next, v);
            }
        };
        let mut id = id;
        if let GKind::Alias { .. } = self.m.globals[id as usize - 1].kind { id = (self.m.gaddr(id).map_err(Ctl::Unsup)? >> 32) as u32; }
        let args: Vec<Val> = c.args.iter().map(|o| self.opd(st, o)).collect();
        let x = match self.extc.get(&id) { Some(x) => *x, None => { let x = crate::ext::classify(&self.m, id); self.extc.insert(id, x); x } };
        if x != crate::ext::Ext::Ir {
            let v = crate::ext::call(self, st, x, id, c, &args)?;
            match v { crate::ext::Out::Ret(v) => return self.finish_call(st, c.dst, c.next, v), crate::ext::Out::Entered => return Ok(()) }
        }
        let f = self.m.func(id).map_err(Ctl::Unsup)?;
        self.push_frame(st, f, args, c.dst, c.next)
    }
    pub fn finish_call(&mut self, st: &mut State, dst: u32, next: Option<u32>, v: Option<Val>) -> R<()> {
        if let Some(v) = v { self.set(st, dst, v); }
        match next { Some(b) => self.goto(st, b), None => st.frames.last_mut().unwrap().ip += 1 }
        Ok(())
    }
    // ------------------------------------------------------------ driver
    pub fn stack(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect() }
    pub fn inputs_of(&self, st: &State) -> Vec<(u16, u128)> { st.inputs.iter().map(|(v, w)| (*w, st.model.get(*v as usize).copied().unwrap_or(0) & mask(*w))).collect() }
    pub fn record(&mut self, st: &State, kind: String, msg: String) {
        let stack = self.stack(st);
        let key = format!("{}|{}|{}", kind, msg, stack.get(0).cloned().unwrap_or_default());
        let n = self.viol_sites.entry(key).or_insert(0);
        *n += 1;
        if *n <= 3 && self.viols.len() < self.cfg.max_viol { let v = Violation { kind, msg, inputs: self.inputs_of(st), stack }; if self.cfg.verbose { eprintln!("VIOL {:?}", v); } self.viols.push(v); }
    }
    pub fn run_one(&mut self, mut st: State) {
        loop {
            if st.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_secs { self.errors.push("time limit".into()); self.pending.clear(); return; }
            if st.steps & 0x3ff == 0 && self.team.is_some() && !self.pending.is_empty() && crate::team::share(self) { return; }
            st.steps += 1; self.st.steps += 1;
            if st.steps > self.cfg.max_steps { self.st.paths += 1; self.record(&st, "nonterm".into(), format!("no end within {} steps", self.cfg.max_steps)); return; }
            let r = self.step(&mut st);
            match r {
                Ok(()) => {}
                Err(Ctl::Kill) => { self.st.killed += 1; return; }
                Err(Ctl::Done) => {
                    self.st.paths += 1;
                    if self.cfg.verbose { eprintln!("path {} pending {} steps {} q {} inputs {:x?}", self.st.paths, self.pending.len(), st.steps, self.z.st.queries, self.inputs_of(&st)); }
                    if self.samples.len() < self.cfg.samples || (self.st.paths.is_power_of_two() && self.samples.len() < 4 * self.cfg.samples) {
                        let obs = st.obs.clone().into_iter().map(|(id, e, _)| (id, self.eval(&st, e))).collect();
                        let s = Sample { inputs: self.inputs_of(&st), obs };
                        self.samples.push(s);
                    }
                    return;
                }
                Err(Ctl::Viol(k, m)) => { self.st.paths += 1; self.record(&st, k, m); return; }
                Err(Ctl::Unsup(m)) | Err(Ctl::Limit(m)) => { let s = self.stack(&st); if self.errors.len() < 20 { self.errors.push(format!("{} in {:?} (inputs {:x?})", m, s, self.inputs_of(&st))); } return; }
            }
        }
    }
}

pub fn demangle(s: &str) -> String {
    // legacy and v0 names: keep identifiers readable
    if s.starts_with("_ZN") {
        let b = s.as_bytes(); let mut i = 3; let mut out = vec![];
        while i < b.len() && b[i].is_ascii_digit() { let mut n = 0; while b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; } if i + n > b.len() { break; } out.push(&s[i..i + n]); i += n; }
        if out.last().map(|x| x.len() == 17 && x.starts_with('h')).unwrap_or(false) { out.pop(); }
        return out.join("::");
    }
    if s.starts_with("_R") {
        let b = s.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
                let mut j = i; let mut n = 0usize; while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; }
                let mut k = j; if k < b.len() && b[k] == b'_' { k += 1; }
                if n > 0 && k + n <= b.len() { out.push(s[k..k + n].to_string()); i = k + n; continue; }
            }
            if b[i] == b's' { // disambiguator s..._
                if let Some(p) = s[i..].find('_') { if p < 14 && s[i + 1..i + p].bytes().all(|c| c.is_ascii_alphanumeric()) { i += p + 1; continue; } }
            }
            i += 1;
        }
        return out.join("::");
    }
    s.to_string()
}

pub fn force(i: usize) -> Option<u128> {
    static F: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    F.get_or_init(|| std::env::var("SYMX_FORCE").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default()).get(i).copied()
}
