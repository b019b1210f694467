//! Textual LLVM IR (LLVM 23 dialect, opaque pointers): parsing into an executable form.
use crate::expr::{mask, FxMap};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u16), Ptr, Float(u16), Arr(u64, TyId), Struct(Vec<TyId>, bool), Vector(u32, TyId), Opaque, Meta }

pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub sa: Vec<(u64, u64)>,
    pub offs: Vec<Rc<[u64]>>,
    pub named: HashMap<String, TyId>,
    pub named_txt: HashMap<String, String>,
}
impl Types {
    pub fn new() -> Self { Types { tys: vec![], map: HashMap::new(), sa: vec![], offs: vec![], named: HashMap::new(), named_txt: HashMap::new() } }
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) { return i; }
        let mut offs: Vec<u64> = vec![];
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let sa = match &t {
            Ty::Void | Ty::Opaque | Ty::Meta => (0, 1),
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = if b >= 9 { 16 } else { b.next_power_of_two() }; (up(b, a), a) }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => { if *w == 80 { (16, 16) } else { (*w as u64 / 8, *w as u64 / 8) } }
            Ty::Arr(n, e) => { let (s, a) = self.sa[*e as usize]; (s * n, a) }
            Ty::Struct(fs, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for f in fs { let (s, a) = self.sa[*f as usize]; let a = if *packed { 1 } else { a }; o = up(o, a); offs.push(o); o += s; al = al.max(a); }
                (up(o, al), al)
            }
            Ty::Vector(n, e) => { let bits = self.bits(*e) as u64 * *n as u64; let b = (bits + 7) / 8; let a = b.next_power_of_two().max(1); (up(b, a), a) }
        };
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.sa.push(sa);
        self.offs.push(offs.into());
        self.map.insert(t, i);
        i
    }
    pub fn bits(&self, t: TyId) -> u16 { match &self.tys[t as usize] { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => 0 } }
    #[inline] pub fn size(&self, t: TyId) -> u64 { self.sa[t as usize].0 }
    #[inline] pub fn t(&self, t: TyId) -> &Ty { &self.tys[t as usize] }
}

#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Rc<u128>), S(u32), A(Rc<Vec<Val>>) }
impl Val {
    pub fn c(v: u128) -> Val { if v >> 64 == 0 { Val::C(v as u64) } else { Val::W(Rc::new(v)) } }
    #[inline] pub fn cv(&self) -> Option<u128> { match self { Val::C(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FToSI, FToUI, SIToF, UIToF, FTrunc, FExt }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IPred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ind(Opd), Asm(String) }
#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<Opd>, pub argtys: Vec<TyId>, pub byval: Vec<Option<TyId>>, pub ret: TyId, pub dst: u32, pub next: Option<u32> }

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    ICmp { p: IPred, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    FCmp { p: u8, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    FNeg { w: u16, lanes: u32, dst: u32, a: Opd },
    Cast { k: Cast, from: TyId, to: TyId, dst: u32, a: Opd },
    Select { ty: TyId, cvec: bool, dst: u32, c: Opd, a: Opd, b: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u16, i64)>, lanes: u32 },
    Load { ty: TyId, dst: u32, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Alloca { ty: TyId, n: Opd, dst: u32 },
    ExtractV { dst: u32, a: Opd, idx: Vec<u32> },
    InsertV { dst: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { dst: u32, a: Opd, i: Opd, n: u32, ety: TyId },
    InsertE { dst: u32, a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Vec<i32> },
    Copy { dst: u32, a: Opd },
    Rmw { op: RmwOp, w: u16, dst: u32, p: Opd, v: Opd },
    CmpXchg { w: u16, dst: u32, p: Opd, c: Opd, n: Opd },
    Call(Box<CallI>),
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { c: Opd, w: u16, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsup(String),
}

pub struct Block { pub ins: Vec<Ins>, pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ptys: Vec<TyId> }
pub struct Func { pub name: String, pub id: u32, pub blocks: Vec<Block>, pub nregs: u32, pub params: Vec<u32>, pub byval: Vec<Option<TyId>>, pub ret: TyId, pub ninsn: usize }

pub enum GKind { Func { start: usize, end: usize, defined: bool }, Var { init: Option<(usize, usize)>, ty_txt: (usize, usize), konst: bool }, Alias { txt: (usize, usize) } }
pub struct Global { pub name: String, pub kind: GKind, pub file: usize }

/// does memory whose lifetime ended lose its contents?
pub static LIFETIMES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Module {
    pub texts: Vec<Rc<String>>,
    pub types: Types,
    pub globals: Vec<Global>, // index+1 = object id
    pub gmap: FxMap<u64, u32>,
    pub gnames: HashMap<String, u32>,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub retired: u32,
}

pub struct P<'a> { s: &'a [u8], pub i: usize, m: &'a mut Module }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

type R<T> = Result<T, String>;

impl Module {
    pub fn new() -> Self { Module { texts: vec![], types: Types::new(), globals: vec![], gmap: Default::default(), gnames: HashMap::new(), funcs: vec![], retired: 0 } }

    pub fn load(&mut self, text: String) -> R<()> {
        let file = self.texts.len();
        let text = Rc::new(text);
        self.texts.push(text.clone());
        let t = text.as_bytes();
        let mut i = 0;
        // line scan
        while i < t.len() {
            let e = t[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(t.len());
            let line = &t[i..e];
            let mut next = e + 1;
            if line.starts_with(b"define ") {
                // function body until "\n}\n"
                let end = find(t, e, b"\n}").ok_or("unterminated function")?;
                next = end + 3;
                let name = gname(t, i)?;
                self.add_global(name, GKind::Func { start: i, end, defined: true }, file)?;
            } else if line.starts_with(b"declare ") {
                let name = gname(t, i)?;
                self.add_global(name, GKind::Func { start: i, end: e, defined: false }, file)?;
            } else if line.starts_with(b"@") {
                let (name, mut j) = name_at(t, i + 1)?;
                // skip " = "
                while t[j] == b' ' || t[j] == b'=' { j += 1; }
                let mut external = false;
                let mut konst = false;
                let mut alias = false;
                loop {
                    while t[j] == b' ' { j += 1; }
                    let s = j;
                    while is_id(t[j]) { j += 1; }
                    let w = &t[s..j];
                    if t[j] == b'(' { let mut d = 0; loop { if t[j] == b'(' { d += 1 } if t[j] == b')' { d -= 1 } j += 1; if d == 0 { break } } }
                    match w {
                        b"external" | b"extern_weak" => external = true,
                        b"constant" => { konst = true; break; }
                        b"global" => break,
                        b"alias" | b"ifunc" => { alias = true; break; }
                        b"" => return Err(format!("cannot parse global {}", name)),
                        _ => {}
                    }
                }
                while t[j] == b' ' { j += 1; }
                if alias {
                    // alias TY, ptr @target
                    self.add_global(name, GKind::Alias { txt: (j, e) }, file)?;
                } else {
                    let ts = j;
                    let te = skip_type(t, j);
                    self.add_global(name, GKind::Var { ty_txt: (ts, te), init: if external { None } else { Some((te, e)) }, konst }, file)?;
                }
            } else if line.starts_with(b"%") {
                let (name, j) = name_at(t, i + 1)?;
                let txt = std::str::from_utf8(&t[j..e]).unwrap();
                let txt = txt.trim_start_matches(|c| c == ' ' || c == '=').trim_start_matches("type").trim();
                self.types.named_txt.insert(name, txt.to_string());
            }
            i = next;
        }
        Ok(())
    }
    fn add_global(&mut self, name: String, kind: GKind, file: usize) -> R<()> {
        if let Some(&id) = self.gnames.get(&name) {
            let old = &self.globals[id as usize - 1].kind;
            let old_decl = match old { GKind::Func { defined, .. } => !*defined, GKind::Var { init, .. } => init.is_none(), _ => false };
            if old_decl { self.globals[id as usize - 1] = Global { name, kind, file }; }
            return Ok(());
        }
        self.globals.push(Global { name: name.clone(), kind, file });
        self.funcs.push(None);
        self.gnames.insert(name, self.globals.len() as u32);
        Ok(())
    }
    pub fn gid(&self, name: &str) -> Option<u32> { self.gnames.get(name).copied() }
    /// Address of a global (following aliases).
    pub fn gaddr(&mut self, id: u32) -> R<u64> {
        if let GKind::Alias { txt } = self.globals[id as usize - 1].kind {
            let f = self.globals[id as usize - 1].file;
            let t = self.texts[f].clone();
            let mut p = P { s: &t.as_bytes()[..txt.1], i: txt.0, m: self };
            let ty = p.ty()?; let _ = ty; p.expect(",")?;
            let ty = p.ty()?;
            let v = p.konst(ty)?;
            return Ok(v.cv().unwrap() as u64);
        }
        Ok((id as u64) << 32)
    }
    pub fn global_init(&mut self, id: u32) -> R<(Vec<u8>, bool)> {
        let (file, ty_txt, init, konst) = match &self.globals[id as usize - 1] { Global { kind: GKind::Var { init, ty_txt, konst }, file, .. } => (*file, *ty_txt, *init, *konst), g => return Err(format!("{} is not a variable", g.name)) };
        let t = self.texts[file].clone();
        let mut p = P { s: &t.as_bytes()[..ty_txt.1], i: ty_txt.0, m: self };
        let ty = p.ty()?;
        let size = p.m.types.size(ty);
        let mut buf = vec![0u8; size as usize];
        match init {
            Some((s, e)) => { let mut p = P { s: &t.as_bytes()[..e], i: s, m: self }; p.konst_bytes(ty, &mut buf, 0)?; }
            None => return Err(format!("external variable {}", self.globals[id as usize - 1].name)),
        }
        Ok((buf, konst))
    }
    pub fn func(&mut self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize - 1] { return Ok(f.clone()); }
        let (s, e, file) = match &self.globals[id as usize - 1] { Global { kind: GKind::Func { start, end, defined: true }, file, .. } => (*start, *end, *file), g => return Err(format!("no body for {}", g.name)) };
        let t = self.texts[file].clone();
        let name = self.globals[id as usize - 1].name.clone();
        let f = parse_func(self, &t, s, e, name.clone(), id).map_err(|x| format!("in function {}: {}", name, x))?;
        let f = Rc::new(f);
        self.funcs[id as usize - 1] = Some(f.clone());
        Ok(f)
    }
    pub fn is_defined(&self, id: u32) -> bool { matches!(self.globals[id as usize - 1].kind, GKind::Func { defined: true, .. }) }
}

fn find(t: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + pat.len() <= t.len() {
        match t[i..].iter().position(|c| *c == pat[0]) { None => return None, Some(p) => { i += p; if t[i..].starts_with(pat) { return Some(i); } i += 1; } }
    }
    None
}
fn name_at(t: &[u8], mut i: usize) -> R<(String, usize)> {
    if t[i] == b'"' {
        i += 1;
        let s = i;
        while t[i] != b'"' { i += 1; }
        let raw = &t[s..i];
        let mut out = vec![]; let mut k = 0;
        while k < raw.len() { if raw[k] == b'\\' && k + 2 < raw.len() + 0 { let h = std::str::from_utf8(&raw[k + 1..k + 3]).unwrap(); if let Ok(v) = u8::from_str_radix(h, 16) { out.push(v); k += 3; continue; } } out.push(raw[k]); k += 1; }
        Ok((String::from_utf8_lossy(&out).into_owned(), i + 1))
    } else {
        let s = i;
        while i < t.len() && is_id(t[i]) { i += 1; }
        if s == i { return Err(format!("name expected at {:?}", String::from_utf8_lossy(&t[i..(i + 40).min(t.len())]))); }
        Ok((std::str::from_utf8(&t[s..i]).unwrap().to_string(), i))
    }
}
/// name of the function in a define/declare line: first '@' at paren depth 0
fn gname(t: &[u8], i: usize) -> R<String> {
    let mut j = i; let mut d = 0; let mut q = false;
    loop {
        let c = t[j];
        if q { if c == b'"' { q = false; } } else {
            match c { b'(' => d += 1, b')' => d -= 1, b'"' => q = true, b'@' if d == 0 => return Ok(name_at(t, j + 1)?.0), b'\n' => return Err("no function name".into()), _ => {} }
        }
        j += 1;
    }
}
fn skip_type(t: &[u8], mut j: usize) -> usize {
    match t[j] {
        b'{' | b'[' | b'<' => {
            let mut d = 0;
            loop {
                match t[j] { b'{' | b'[' | b'<' | b'(' => d += 1, b'}' | b']' | b'>' | b')' => d -= 1, b'"' => { j += 1; while t[j] != b'"' { j += 1; } } _ => {} }
                j += 1;
                if d == 0 { return j; }
            }
        }
        b'%' => { if t[j + 1] == b'"' { j += 2; while t[j] != b'"' { j += 1; } j + 1 } else { j += 1; while is_id(t[j]) { j += 1; } j } }
        _ => { while j < t.len() && is_id(t[j]) { j += 1; } j }
    }
}

impl<'a> P<'a> {
    pub fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn at(&mut self, tok: &str) -> bool { self.ws(); self.s[self.i..].starts_with(tok.as_bytes()) }
    fn eat(&mut self, tok: &str) -> bool { if self.at(tok) { self.i += tok.len(); true } else { false } }
    fn expect(&mut self, tok: &str) -> R<()> { if self.eat(tok) { Ok(()) } else { Err(format!("expected {:?} at {:?}", tok, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]).into_owned() }
    fn word(&mut self) -> &'a str { // identifier-like word at the cursor without consuming
        self.ws(); let mut j = self.i; while j < self.s.len() && is_id(self.s[j]) { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn kw(&mut self, k: &str) -> bool { if self.word() == k { self.i += k.len(); true } else { false } }
    fn num(&mut self) -> R<u64> { let w = self.word(); let r = w.parse::<u64>().map_err(|_| format!("number expected at {:?}", self.rest()))?; self.i += w.len(); Ok(r) }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0;
        loop { match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; if d == 0 { break; } }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() { b'{' | b'[' | b'<' | b'%' => return true, _ => {} }
        let w = self.word();
        matches!(w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "metadata" | "label" | "token") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    pub fn ty(&mut self) -> R<TyId> {
        let c = self.peek();
        let t = match c {
            b'{' => { self.i += 1; let f = self.tys(b'}')?; Ty::Struct(f, false) }
            b'[' => { self.i += 1; let n = self.num()?; self.expect("x")?; let e = self.ty()?; self.expect("]")?; Ty::Arr(n, e) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.tys(b'}')?; self.expect(">")?; Ty::Struct(f, true) }
                else { let n = self.num()?; self.expect("x")?; let e = self.ty()?; self.expect(">")?; Ty::Vector(n as u32, e) }
            }
            b'%' => {
                let (n, j) = name_at(self.s, self.i + 1)?; self.i = j;
                if let Some(&t) = self.m.types.named.get(&n) { return Ok(t); }
                let txt = self.m.types.named_txt.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n))?;
                let t = if txt == "opaque" { self.m.types.intern(Ty::Opaque) } else { let mut p = P { s: txt.as_bytes(), i: 0, m: self.m }; p.ty()? };
                self.m.types.named.insert(n, t);
                return Ok(t);
            }
            _ => {
                let w = self.word();
                let t = match w {
                    "ptr" => Ty::Ptr, "void" => Ty::Void, "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "x86_fp80" => Ty::Float(80),
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ => { if w.starts_with('i') { Ty::Int(w[1..].parse().map_err(|_| format!("type expected at {:?}", self.rest()))?) } else { return Err(format!("type expected at {:?}", self.rest())); } }
                };
                self.i += w.len();
                if t == Ty::Ptr && self.kw("addrspace") { self.skip_parens(); }
                t
            }
        };
        Ok(self.m.types.intern(t))
    }
    fn tys(&mut self, close: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        if self.peek() == close { self.i += 1; return Ok(v); }
        loop { v.push(self.ty()?); if self.peek() == b',' { self.i += 1; } else { break; } }
        if self.peek() != close { return Err(format!("expected {:?} at {:?}", close as char, self.rest())); }
        self.i += 1;
        Ok(v)
    }
    fn int_lit(&mut self, w: u16) -> R<u128> {
        let s = self.word();
        self.i += s.len();
        let v = if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) { u128::from_str_radix(h, 16).map_err(|e| e.to_string())? }
            else if s.starts_with('-') { s.parse::<i128>().map_err(|_| format!("int {:?}", s))? as u128 } else { s.parse::<u128>().map_err(|_| format!("int {:?} at {:?}", s, self.rest()))? };
        Ok(v & mask(w))
    }
    fn float_lit(&mut self, w: u16) -> R<u128> {
        self.ws();
        let s0 = self.i; let mut j = s0;
        while j < self.s.len() && (is_id(self.s[j]) || self.s[j] == b'+') { j += 1; }
        let s = std::str::from_utf8(&self.s[s0..j]).unwrap();
        self.i = j;
        if let Some(h) = s.strip_prefix("f0x") { return u128::from_str_radix(h, 16).map_err(|e| e.to_string()); }
        let d = if let Some(h) = s.strip_prefix("0x") {
            if h.starts_with('K') { return Err("fp80 literal".into()); }
            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
        } else {
            let neg = s.starts_with('-'); let t = s.trim_start_matches(['+', '-']);
            let d = match t {
                "qnan" | "nan" => f64::from_bits(0x7ff8 << 48),
                "inf" => f64::INFINITY,
                _ => {
                    let pay = t.strip_prefix("snan").or(t.strip_prefix("nan")).is_some();
                    if pay && self.i < self.s.len() && self.s[self.i] == b'(' {
                        let k = self.s[self.i..].iter().position(|c| *c == b')').ok_or("nan payload")?;
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + k]).unwrap().trim_start_matches("0x");
                        let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        self.i += k + 1;
                        if w == 32 { return Ok(((neg as u128) << 31) | 0x7f800000 | if t.starts_with('s') { 0 } else { 0x400000 } | v as u128); }
                        f64::from_bits((0x7ff << 52) | if t.starts_with('s') { 0 } else { 1 << 51 } | v)
                    } else { t.parse::<f64>().map_err(|_| format!("float {:?}", s))? }
                }
            };
            if neg { f64::from_bits(d.to_bits() | 1 << 63) } else { d }
        };
        Ok(if w == 32 { 
            let bits = d.to_bits();
            if d.is_nan() { // preserve payload
                let sign = (bits >> 63) as u32; ((sign << 31) | 0x7f800000 | ((bits >> 29) as u32 & 0x7fffff)) as u128
            } else { (d as f32).to_bits() as u128 } } else { d.to_bits() as u128 })
    }
    pub fn zero(&mut self, ty: TyId) -> Val {
        match self.m.types.t(ty).clone() {
            Ty::Arr(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Vector(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Struct(fs, _) => { let v = fs.iter().map(|f| self.zero(*f)).collect(); Val::A(Rc::new(v)) }
            _ => Val::C(0),
        }
    }
    /// typed constant following its type
    pub fn konst(&mut self, ty: TyId) -> R<Val> {
        let t = self.m.types.t(ty).clone();
        let c = self.peek();
        match c {
            b'@' => { let (n, j) = name_at(self.s, self.i + 1)?; self.i = j; let id = self.m.gid(&n).ok_or_else(|| format!("unknown global @{}", n))?; return Ok(Val::C(self.m.gaddr(id)?)); }
            b'{' | b'[' | b'<' => {
                if matches!(t, Ty::Struct(_, true)) { self.expect("<")?; }
                let close = match self.peek() { b'{' => b'}', b'[' => b']', _ => b'>' };
                self.i += 1;
                let mut v = vec![];
                while self.peek() != close { let et = self.ty()?; v.push(self.konst(et)?); self.eat(","); }
                self.i += 1;
                if matches!(t, Ty::Struct(_, true)) { self.expect(">")?; }
                return Ok(Val::A(Rc::new(v)));
            }
            b'c' if self.s[self.i + 1] == b'"' => { let b = self.cstr()?; return Ok(Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u64)).collect()))); }
            _ => {}
        }
        let w = self.word();
        match w {
            "zeroinitializer" | "undef" | "poison" => { self.i += w.len(); return Ok(self.zero(ty)); }
            "null" | "none" | "false" => { self.i += w.len(); return Ok(Val::C(0)); }
            "true" => { self.i += w.len(); return Ok(Val::C(1)); }
            "splat" => {
                self.i += w.len(); self.expect("(")?; let et = self.ty()?; let v = self.konst(et)?; self.expect(")")?;
                if let Ty::Vector(n, _) = t { return Ok(Val::A(Rc::new(vec![v; n as usize]))); }
                return Err("splat of non-vector".into());
            }
            "getelementptr" => {
                self.i += w.len();
                while matches!(self.word(), "inbounds" | "nuw" | "nusw" | "inrange") { let l = self.word().len(); self.i += l; if self.peek() == b'(' && self.s[self.i..].starts_with(b"(-") { self.skip_parens(); } }
                if self.at("(") && { let save = self.i; self.i += 1; let r = self.at_type(); self.i = save; !r } { self.skip_parens(); }
                self.expect("(")?;
                let et = self.ty()?; self.expect(",")?;
                let pt = self.ty()?; let base = self.konst(pt)?.cv().ok_or("gep base")? as i64;
                let mut off = 0i64; let mut cur = et; let mut first = true;
                while self.eat(",") {
                    self.kw("inrange");
                    let it = self.ty()?; let iw = self.m.types.bits(it);
                    let v = self.konst(it)?.cv().ok_or("gep idx")?;
                    let v = crate::expr::sx(v, iw) as i64;
                    if first { off += v * self.m.types.size(cur) as i64; first = false; }
                    else { let (o, n) = gep_step(&self.m.types, cur, v)?; off += o; cur = n; }
                }
                self.expect(")")?;
                return Ok(Val::C(base.wrapping_add(off) as u64));
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                self.i += w.len(); self.expect("(")?; let ft = self.ty()?; let v = self.konst(ft)?; self.expect("to")?; let tt = self.ty()?; self.expect(")")?;
                let (fw, tw) = (self.m.types.bits(ft), self.m.types.bits(tt));
                if fw == 0 || tw == 0 { return Err("constant cast of aggregate".into()); }
                let x = v.cv().ok_or("cast")?;
                return Ok(Val::c(if w == "sext" { crate::expr::sx(x, fw) as u128 & mask(tw) } else { x & mask(tw) }));
            }
            "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                self.i += w.len();
                while matches!(self.word(), "nuw" | "nsw" | "exact") { let l = self.word().len(); self.i += l; }
                self.expect("(")?; let ft = self.ty()?; let a = self.konst(ft)?.cv().ok_or("cexpr")?; self.expect(",")?; let ft2 = self.ty()?; let b = self.konst(ft2)?.cv().ok_or("cexpr")?; self.expect(")")?;
                use crate::expr::Op;
                let op = match w { "sub" => Op::Sub, "add" => Op::Add, "mul" => Op::Mul, "xor" => Op::Xor, "and" => Op::And, "or" => Op::Or, "shl" => Op::Shl, _ => Op::LShr };
                return Ok(Val::c(crate::expr::fold(op, self.m.types.bits(ft), a, b)));
            }
            "dso_local_equivalent" | "no_cfi" => { self.i += w.len(); return self.konst(ty); }
            _ => {}
        }
        match t {
            Ty::Int(w) => Ok(Val::c(self.int_lit(w)?)),
            Ty::Float(w) => Ok(Val::c(self.float_lit(w)?)),
            _ => Err(format!("constant expected at {:?}", self.rest())),
        }
    }
    fn cstr(&mut self) -> R<Vec<u8>> {
        self.i += 2;
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            if c == b'"' { self.i += 1; return Ok(out); }
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' { out.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?); self.i += 3;
            } else { out.push(c); self.i += 1; }
        }
    }
    fn konst_bytes(&mut self, ty: TyId, buf: &mut [u8], off: usize) -> R<()> {
        let t = self.m.types.t(ty).clone();
        let c = self.peek();
        if self.word() == "zeroinitializer" || self.word() == "undef" || self.word() == "poison" { let l = self.word().len(); self.i += l; return Ok(()); }
        if c == b'c' && self.s[self.i + 1] == b'"' { let b = self.cstr()?; buf[off..off + b.len()].copy_from_slice(&b); return Ok(()); }
        match &t {
            Ty::Struct(_, packed) => {
                if *packed { self.expect("<")?; }
                self.expect("{")?;
                let offs = self.m.types.offs[ty as usize].clone();
                let mut k = 0;
                while self.peek() != b'}' { let et = self.ty()?; self.konst_bytes(et, buf, off + offs[k] as usize)?; k += 1; self.eat(","); }
                self.i += 1;
                if *packed { self.expect(">")?; }
                Ok(())
            }
            Ty::Arr(_, e) => {
                self.expect("[")?;
                let sz = self.m.types.size(*e) as usize; let mut k = 0;
                while self.peek() != b']' { let et = self.ty()?; self.konst_bytes(et, buf, off + k * sz)?; k += 1; self.eat(","); }
                self.i += 1;
                Ok(())
            }
            Ty::Vector(_, e) => {
                let e = *e;
                let v = self.konst(ty)?;
                let sz = (self.m.types.bits(e) as usize + 7) / 8;
                if let Val::A(l) = v { for (k, x) in l.iter().enumerate() { let b = x.cv().unwrap().to_le_bytes(); buf[off + k * sz..off + k * sz + sz].copy_from_slice(&b[..sz]); } }
                Ok(())
            }
            _ => {
                let v = self.konst(ty)?.cv().ok_or("scalar")?;
                let n = ((self.m.types.bits(ty) + 7) / 8) as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }
}

pub fn gep_step(ts: &Types, cur: TyId, idx: i64) -> R<(i64, TyId)> {
    match ts.t(cur) {
        Ty::Arr(_, e) => Ok((idx * ts.size(*e) as i64, *e)),
        Ty::Vector(_, e) => Ok((idx * ts.size(*e) as i64, *e)),
        Ty::Struct(fs, _) => Ok((ts.offs[cur as usize][idx as usize] as i64, fs[idx as usize])),
        t => Err(format!("gep into {:?}", t)),
    }
}

// ---------------------------------------------------------------- function bodies
struct FCtx { regs: HashMap<String, u32>, labels: HashMap<String, u32> }
impl FCtx {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn label(&mut self, n: &str) -> u32 { if let Some(&r) = self.labels.get(n) { return r; } let r = self.labels.len() as u32; self.labels.insert(n.to_string(), r); r }
}

fn parse_func(m: &mut Module, t: &str, s: usize, e: usize, name: String, id: u32) -> R<Func> {
    let b = t.as_bytes();
    let he = s + b[s..e].iter().position(|c| *c == b'\n').ok_or("no body")?;
    let mut cx = FCtx { regs: HashMap::new(), labels: HashMap::new() };
    // header
    let mut params = vec![]; let mut byval = vec![]; let ret;
    let mut unnamed = 0u32;
    {
        let mut p = P { s: &b[..he], i: s + 7, m };
        while !p.at_type() { let w = p.word().len(); if w == 0 { return Err(format!("header: {}", p.rest())); } p.i += w; if p.peek() == b'(' { p.skip_parens(); } }
        ret = p.ty()?;
        p.expect("@")?;
        let (_, j) = name_at(p.s, p.i)?; p.i = j;
        p.expect("(")?;
        while p.peek() != b')' {
            if p.eat("...") { continue; }
            let _t = p.ty()?;
            let mut bv = None;
            loop {
                match p.peek() { b',' | b')' => { let n = unnamed.to_string(); unnamed += 1; params.push(cx.reg(&n)); break; }
                    b'%' => { let (n, j) = name_at(p.s, p.i + 1)?; p.i = j; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed = n.parse::<u32>().unwrap() + 1; } params.push(cx.reg(&n)); break; }
                    _ => {}
                }
                let w = p.word(); if w.is_empty() { return Err(format!("param: {}", p.rest())); }
                p.i += w.len();
                if w == "align" { if p.peek() == b'(' { p.skip_parens(); } else { p.num()?; } }
                else if w == "byval" { p.expect("(")?; bv = Some(p.ty()?); p.expect(")")?; }
                else if p.peek() == b'(' { p.skip_parens(); }
            }
            byval.push(bv);
            p.eat(",");
        }
    }
    // logical lines
    let mut lines: Vec<String> = vec![];
    let body = &t[he + 1..e];
    let mut joining: Option<&'static str> = None;
    for l in body.split('\n') {
        let tr = l.trim();
        if tr.is_empty() { continue; }
        if let Some(k) = joining {
            match k {
                "switch" => { let last = lines.last_mut().unwrap(); last.push(' '); last.push_str(tr); if tr.starts_with(']') { joining = None; } continue; }
                "invoke" => { let last = lines.last_mut().unwrap(); last.push(' '); last.push_str(tr); joining = None; continue; }
                _ => { if tr.starts_with("catch") || tr.starts_with("cleanup") || tr.starts_with("filter") { let last = lines.last_mut().unwrap(); last.push(' '); last.push_str(tr); continue; } joining = None; }
            }
        }
        if tr.starts_with(';') || tr.starts_with("#dbg") { continue; }
        lines.push(tr.to_string());
        if tr.starts_with("switch ") && !tr.contains(']') { joining = Some("switch"); }
        else if (tr.starts_with("invoke ") || tr.contains(" = invoke ")) && !tr.contains(" to label ") { joining = Some("invoke"); }
        else if tr.contains(" = landingpad ") { joining = Some("lp"); }
    }
    // label of entry
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    let mut n = 0;
    if !lines.first().map(|l| is_label(l)).unwrap_or(false) {
        let l = cx.label(&unnamed.to_string());
        cur = Some((l, Block { ins: vec![], phis: vec![], ptys: vec![] }));
    }
    let put = |blocks: &mut Vec<Option<Block>>, c: Option<(u32, Block)>| { if let Some((l, bl)) = c { while blocks.len() <= l as usize { blocks.push(None); } blocks[l as usize] = Some(bl); } };
    for l in &lines {
        if is_label(l) {
            put(&mut blocks, cur.take());
            let (nm, _) = name_at(l.as_bytes(), 0)?;
            let id = cx.label(&nm);
            cur = Some((id, Block { ins: vec![], phis: vec![], ptys: vec![] }));
            continue;
        }
        let (_, bl) = cur.as_mut().ok_or("instruction outside block")?;
        let mut p = P { s: l.as_bytes(), i: 0, m };
        match p.ins(&mut cx, bl) {
            Ok(Some(i)) => { bl.ins.push(i); n += 1; }
            Ok(None) => {}
            Err(e) => { bl.ins.push(Ins::Unsup(format!("{}: {}", e, l))); }
        }
    }
    put(&mut blocks, cur.take());
    let blocks = blocks.into_iter().map(|x| x.unwrap_or(Block { ins: vec![Ins::Unreachable], phis: vec![], ptys: vec![] })).collect();
    Ok(Func { name, id, blocks, nregs: cx.regs.len() as u32, params, byval, ret, ninsn: n })
}
fn is_label(l: &str) -> bool {
    let b = l.as_bytes();
    if b[0] == b'"' { if let Some(p) = l[1..].find('"') { return b.get(p + 2) == Some(&b':'); } return false; }
    let mut i = 0; while i < b.len() && is_id(b[i]) { i += 1; }
    i > 0 && b.get(i) == Some(&b':')
}

impl<'a> P<'a> {
    fn opd(&mut self, cx: &mut FCtx, ty: TyId) -> R<Opd> {
        if self.peek() == b'%' { let (n, j) = name_at(self.s, self.i + 1)?; self.i = j; return Ok(Opd::R(cx.reg(&n))); }
        if self.at("asm") { return Err("asm operand".into()); }
        Ok(Opd::K(self.konst(ty)?))
    }
    fn topd(&mut self, cx: &mut FCtx) -> R<(TyId, Opd)> { let t = self.ty()?; let o = self.opd(cx, t)?; Ok((t, o)) }
    fn label(&mut self, cx: &mut FCtx) -> R<u32> { self.expect("label")?; self.expect("%")?; let (n, j) = name_at(self.s, self.i)?; self.i = j; Ok(cx.label(&n)) }
    fn scal(&self, ty: TyId) -> (u16, u32) { match self.m.types.t(ty) { Ty::Vector(n, e) => (self.m.types.bits(*e), *n), _ => (self.m.types.bits(ty), 0) } }
    fn ins(&mut self, cx: &mut FCtx, bl: &mut Block) -> R<Option<Ins>> {
        let mut dst = u32::MAX;
        if self.peek() == b'%' { let (n, j) = name_at(self.s, self.i + 1)?; self.i = j; dst = cx.reg(&n); self.expect("=")?; }
        let mut op = self.word(); self.i += op.len();
        if matches!(op, "tail" | "musttail" | "notail") { op = self.word(); self.i += op.len(); }
        let bin = match op {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub), "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), "frem" => Some(BinOp::FRem), _ => None,
        };
        if let Some(op) = bin {
            while !self.at_type() { let l = self.word().len(); if l == 0 { return Err("bin".into()); } self.i += l; }
            let (t, a) = self.topd(cx)?; self.expect(",")?; let b = self.opd(cx, t)?;
            let (w, lanes) = self.scal(t);
            return Ok(Some(Ins::Bin { op, w, lanes, dst, a, b }));
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::Bit),
            "fptosi" => Some(Cast::FToSI), "fptoui" => Some(Cast::FToUI), "sitofp" => Some(Cast::SIToF), "uitofp" => Some(Cast::UIToF), "fptrunc" => Some(Cast::FTrunc), "fpext" => Some(Cast::FExt), _ => None,
        };
        if let Some(k) = cast {
            while !self.at_type() { let l = self.word().len(); if l == 0 { return Err("cast".into()); } self.i += l; }
            let (from, a) = self.topd(cx)?; self.expect("to")?; let to = self.ty()?;
            let k = if k == Cast::Bit && self.scal(from).0 != self.scal(to).0 && self.m.types.bits(from) != 0 && self.m.types.bits(to) != 0 { if self.m.types.bits(from) > self.m.types.bits(to) { Cast::Trunc } else { Cast::ZExt } } else { k };
            return Ok(Some(Ins::Cast { k, from, to, dst, a }));
        }
        Ok(Some(match op {
            "icmp" => {
                self.kw("samesign");
                let p = self.word(); self.i += p.len();
                let p = match p { "eq" => IPred::Eq, "ne" => IPred::Ne, "ult" => IPred::Ult, "ule" => IPred::Ule, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "slt" => IPred::Slt, "sle" => IPred::Sle, "sgt" => IPred::Sgt, "sge" => IPred::Sge, _ => return Err("icmp".into()) };
                let (t, a) = self.topd(cx)?; self.expect(",")?; let b = self.opd(cx, t)?;
                let (w, lanes) = self.scal(t);
                Ins::ICmp { p, w, lanes, dst, a, b }
            }
            "fcmp" => {
                let preds = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                let p = loop { let w = self.word(); if w.is_empty() { return Err("fcmp".into()); } self.i += w.len(); if let Some(k) = preds.iter().position(|x| *x == w) { break k as u8; } };
                let (t, a) = self.topd(cx)?; self.expect(",")?; let b = self.opd(cx, t)?;
                let (w, lanes) = self.scal(t);
                Ins::FCmp { p, w, lanes, dst, a, b }
            }
            "fneg" => { while !self.at_type() { let l = self.word().len(); self.i += l; } let (t, a) = self.topd(cx)?; let (w, lanes) = self.scal(t); Ins::FNeg { w, lanes, dst, a } }
            "select" => {
                while !self.at_type() { let l = self.word().len(); self.i += l; }
                let (ct, c) = self.topd(cx)?; self.expect(",")?; let (ty, a) = self.topd(cx)?; self.expect(",")?; let (_, b) = self.topd(cx)?;
                Ins::Select { ty, cvec: matches!(self.m.types.t(ct), Ty::Vector(..)), dst, c, a, b }
            }
            "freeze" => { let (_, a) = self.topd(cx)?; Ins::Copy { dst, a } }
            "getelementptr" => {
                while matches!(self.word(), "inbounds" | "nuw" | "nusw") { let l = self.word().len(); self.i += l; }
                let et = self.ty()?; self.expect(",")?;
                let (bt, base) = self.topd(cx)?;
                let mut lanes = if let Ty::Vector(n, _) = self.m.types.t(bt) { *n } else { 0 };
                let mut off = 0i64; let mut idx = vec![]; let mut cur = et; let mut first = true;
                while self.eat(",") {
                    if self.peek() == b'!' { break; }
                    let (it, o) = self.topd(cx)?;
                    let (iw, il) = self.scal(it); if il > 0 { lanes = il; }
                    let stride;
                    if first { stride = self.m.types.size(cur) as i64; first = false; }
                    else {
                        match self.m.types.t(cur).clone() {
                            Ty::Struct(..) => { let k = match &o { Opd::K(v) => v.cv().ok_or("gep vec struct")?, _ => return Err("gep struct idx".into()) }; let (d, n) = gep_step(&self.m.types, cur, k as i64)?; off += d; cur = n; continue; }
                            Ty::Arr(_, e) | Ty::Vector(_, e) => { stride = self.m.types.size(e) as i64; cur = e; }
                            _ => return Err("gep".into()),
                        }
                    }
                    match &o { Opd::K(v) if v.cv().is_some() => off += crate::expr::sx(v.cv().unwrap(), iw) as i64 * stride, _ => idx.push((o, iw, stride)) }
                }
                Ins::Gep { dst, base, off, idx, lanes }
            }
            "load" => { self.kw("atomic"); self.kw("volatile"); let ty = self.ty()?; self.expect(",")?; let (_, p) = self.topd(cx)?; Ins::Load { ty, dst, p } }
            "store" => { self.kw("atomic"); self.kw("volatile"); let (ty, v) = self.topd(cx)?; self.expect(",")?; let (_, p) = self.topd(cx)?; Ins::Store { ty, v, p } }
            "alloca" => {
                self.kw("inalloca");
                let ty = self.ty()?;
                let mut n = Opd::K(Val::C(1));
                if self.eat(",") && self.at_type() { n = self.topd(cx)?.1; }
                Ins::Alloca { ty, n, dst }
            }
            "extractvalue" => { let (_, a) = self.topd(cx)?; let mut idx = vec![]; while self.eat(",") { if self.peek() == b'!' { break; } idx.push(self.num()? as u32); } Ins::ExtractV { dst, a, idx } }
            "insertvalue" => { let (_, a) = self.topd(cx)?; self.expect(",")?; let (_, v) = self.topd(cx)?; let mut idx = vec![]; while self.eat(",") { if self.peek() == b'!' { break; } idx.push(self.num()? as u32); } Ins::InsertV { dst, a, v, idx } }
            "extractelement" => { let (t, a) = self.topd(cx)?; self.expect(",")?; let (_, i) = self.topd(cx)?; let (n, e) = match self.m.types.t(t) { Ty::Vector(n, e) => (*n, *e), _ => return Err("ee".into()) }; Ins::ExtractE { dst, a, i, n, ety: e } }
            "insertelement" => { let (t, a) = self.topd(cx)?; self.expect(",")?; let (_, v) = self.topd(cx)?; self.expect(",")?; let (_, i) = self.topd(cx)?; let n = match self.m.types.t(t) { Ty::Vector(n, _) => *n, _ => return Err("ie".into()) }; Ins::InsertE { dst, a, v, i, n } }
            "shufflevector" => {
                let (t, a) = self.topd(cx)?; self.expect(",")?; let (_, b) = self.topd(cx)?; self.expect(",")?;
                let mt = self.ty()?;
                let n = match self.m.types.t(t) { Ty::Vector(n, _) => *n, _ => return Err("sv".into()) };
                let mv = self.konst(mt)?;
                let mk = match mv { Val::A(l) => l.iter().map(|x| x.cv().unwrap() as i32).collect(), _ => return Err("sv mask".into()) };
                Ins::Shuffle { dst, a, b, n, mask: mk }
            }
            "phi" => {
                while !self.at_type() { let l = self.word().len(); self.i += l; }
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect("[")?; let o = self.opd(cx, t)?; self.expect(",")?; self.expect("%")?; let (n, j) = name_at(self.s, self.i)?; self.i = j; self.expect("]")?;
                    inc.push((cx.label(&n), o));
                    if !self.eat(",") || self.peek() == b'!' { break; }
                }
                bl.phis.push((dst, inc)); bl.ptys.push(t);
                return Ok(None);
            }
            "br" => {
                if self.at("label") { Ins::Br(self.label(cx)?) }
                else { let (_, c) = self.topd(cx)?; self.expect(",")?; let t = self.label(cx)?; self.expect(",")?; let f = self.label(cx)?; Ins::CondBr { c, t, f } }
            }
            "switch" => {
                let (t, c) = self.topd(cx)?; self.expect(",")?; let def = self.label(cx)?; self.expect("[")?;
                let w = self.m.types.bits(t);
                let mut cases = vec![];
                while self.peek() != b']' { let ct = self.ty()?; let v = self.konst(ct)?.cv().unwrap(); self.expect(",")?; let l = self.label(cx)?; cases.push((v, l)); }
                Ins::Switch { c, w, cases, def }
            }
            "ret" => { let t = self.ty()?; if *self.m.types.t(t) == Ty::Void { Ins::Ret(None) } else { Ins::Ret(Some(self.opd(cx, t)?)) } }
            "unreachable" => Ins::Unreachable,
            "resume" | "landingpad" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "atomicrmw" => {
                self.kw("volatile");
                let o = self.word(); self.i += o.len();
                let op = match o { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "nand" => RmwOp::Nand, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, _ => return Err("atomicrmw".into()) };
                let (_, p) = self.topd(cx)?; self.expect(",")?; let (t, v) = self.topd(cx)?;
                Ins::Rmw { op, w: self.m.types.bits(t), dst, p, v }
            }
            "cmpxchg" => { self.kw("weak"); self.kw("volatile"); let (_, p) = self.topd(cx)?; self.expect(",")?; let (t, c) = self.topd(cx)?; self.expect(",")?; let (_, n) = self.topd(cx)?; Ins::CmpXchg { w: self.m.types.bits(t), dst, p, c, n } }
            "call" | "invoke" => {
                while !self.at_type() { let w = self.word(); if w.is_empty() { return Err("call".into()); } self.i += w.len(); if w == "align" && self.peek() != b'(' { self.num()?; } else if self.peek() == b'(' { self.skip_parens(); } }
                let ret = self.ty()?;
                if self.peek() == b'(' { self.skip_parens(); }
                let callee = if self.peek() == b'@' {
                    let (n, j) = name_at(self.s, self.i + 1)?; self.i = j;
                    if n.starts_with("llvm.dbg.") || n.starts_with("llvm.lifetime.start") || (n.starts_with("llvm.lifetime.end") && !LIFETIMES.load(std::sync::atomic::Ordering::Relaxed)) || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.donothing") { return Ok(None); }
                    Callee::Direct(self.m.gid(&n).ok_or_else(|| format!("unknown function @{}", n))?)
                } else if self.peek() == b'%' { let (n, j) = name_at(self.s, self.i + 1)?; self.i = j; Callee::Ind(Opd::R(cx.reg(&n))) }
                else if self.word() == "asm" {
                    self.i += 3;
                    while self.peek() != b'"' { let l = self.word().len(); self.i += l; }
                    self.i += 1; let s0 = self.i; while self.s[self.i] != b'"' { self.i += 1; } let txt = String::from_utf8_lossy(&self.s[s0..self.i]).into_owned(); self.i += 1;
                    self.expect(",")?; self.expect("\"")?; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1;
                    Callee::Asm(txt)
                } else { let pt = self.m.types.intern(Ty::Ptr); Callee::Ind(Opd::K(self.konst(pt)?)) };
                self.expect("(")?;
                let mut args = vec![]; let mut argtys = vec![]; let mut byval = vec![];
                while self.peek() != b')' {
                    let t = self.ty()?;
                    if *self.m.types.t(t) == Ty::Meta { // metadata operand
                        let mut d = 0; loop { match self.s[self.i] { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1 } b',' if d == 0 => break, _ => {} } self.i += 1; }
                        self.eat(","); continue;
                    }
                    let mut bv = None;
                    loop {
                        let c = self.peek();
                        if c == b'%' || c == b'@' || c == b'{' || c == b'[' || c == b'<' || c == b'-' || c == b'+' || c.is_ascii_digit() { break; }
                        let w = self.word();
                        if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "splat" | "xor" | "mul" | "zext" | "sext") || (w == "c" && self.s[self.i + 1] == b'"') || w.starts_with("f0x") || w.starts_with("u0x") { break; }
                        if w.is_empty() { return Err(format!("arg at {:?}", self.rest())); }
                        self.i += w.len();
                        if w == "align" { if self.peek() == b'(' { self.skip_parens(); } else { self.num()?; } }
                        else if w == "byval" { self.expect("(")?; bv = Some(self.ty()?); self.expect(")")?; }
                        else if self.peek() == b'(' { self.skip_parens(); }
                    }
                    let o = self.opd(cx, t)?;
                    args.push(o); argtys.push(t); byval.push(bv);
                    self.eat(",");
                }
                self.i += 1;
                let mut next = None;
                if op == "invoke" {
                    while !self.at("to label") { if self.i >= self.s.len() { return Err("invoke".into()); } self.i += 1; }
                    self.expect("to")?;
                    next = Some(self.label(cx)?);
                }
                Ins::Call(Box::new(CallI { callee, args, argtys, byval, ret, dst, next }))
            }
            _ => return Err(format!("unsupported instruction {:?}", op)),
        }))
    }
}
