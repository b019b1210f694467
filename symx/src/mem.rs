//! Object memory: 64-bit address = object id << 32 | offset.
use crate::expr::*;
use crate::ir::Val;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Heap, Gc, Stack, Global, Foreign }
#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub s: Option<Vec<u64>>, pub kind: Kind, pub ro: bool }
pub const CONC: u64 = u64::MAX;

#[derive(Clone)]
pub enum Slot { None, Freed, Obj(Rc<Obj>) }
const CH: usize = 64;
#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Vec<Slot>>>, pub next: u32, pub recycle: Vec<u32>, pub live_heap: u64 }

pub enum MErr { Null(u64), Uaf(u64), Oob(u64, u64), Ro(u64), NotObj(u64), Lazy(u32) }

impl Mem {
    pub fn new(nglobals: u32) -> Mem { Mem { chunks: vec![], next: (nglobals + 2 + 63) & !63, recycle: vec![], live_heap: 0 } }
    #[inline] pub fn slot(&self, id: u32) -> &Slot { match self.chunks.get(id as usize / CH) { Some(c) => &c[id as usize % CH], None => &Slot::None } }
    pub fn slot_mut(&mut self, id: u32) -> &mut Slot {
        let k = id as usize / CH;
        while self.chunks.len() <= k { self.chunks.push(Rc::new(vec![Slot::None; CH])); }
        &mut Rc::make_mut(&mut self.chunks[k])[id as usize % CH]
    }
    pub fn alloc(&mut self, size: usize, fill: u8, kind: Kind) -> u64 {
        let id = if kind == Kind::Stack { self.recycle.pop() } else { None };
        let id = id.unwrap_or_else(|| { let i = self.next; self.next += 1; i });
        if kind == Kind::Heap { self.live_heap += 1; }
        *self.slot_mut(id) = Slot::Obj(Rc::new(Obj { b: vec![fill; size], s: None, kind, ro: false }));
        (id as u64) << 32
    }
    pub fn put(&mut self, id: u32, b: Vec<u8>, kind: Kind, ro: bool) { *self.slot_mut(id) = Slot::Obj(Rc::new(Obj { b, s: None, kind, ro })); }
    pub fn free_stack(&mut self, id: u32) { *self.slot_mut(id) = Slot::Freed; self.recycle.push(id); }
    #[inline]
    pub fn get(&self, addr: u64, n: u64, nglobals: u32) -> Result<(&Rc<Obj>, usize), MErr> {
        let id = (addr >> 32) as u32; let off = addr & 0xffff_ffff;
        match self.slot(id) {
            Slot::Obj(o) => { if off + n <= o.b.len() as u64 { Ok((o, off as usize)) } else { Err(MErr::Oob(addr, o.b.len() as u64)) } }
            Slot::Freed => Err(MErr::Uaf(addr)),
            Slot::None => if id == 0 { Err(MErr::Null(addr)) } else if id <= nglobals { Err(MErr::Lazy(id)) } else { Err(MErr::NotObj(addr)) },
        }
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64, n: u64, nglobals: u32) -> Result<(&mut Obj, usize), MErr> {
        let id = (addr >> 32) as u32; let off = addr & 0xffff_ffff;
        match self.slot_mut(id) {
            Slot::Obj(o) => {
                if o.ro { return Err(MErr::Ro(addr)); }
                if off + n <= o.b.len() as u64 { Ok((Rc::make_mut(o), off as usize)) } else { Err(MErr::Oob(addr, o.b.len() as u64)) } }
            Slot::Freed => Err(MErr::Uaf(addr)),
            Slot::None => if id == 0 { Err(MErr::Null(addr)) } else if id <= nglobals { Err(MErr::Lazy(id)) } else { Err(MErr::NotObj(addr)) },
        }
    }
}
impl Obj {
    #[inline] pub fn conc(&self, off: usize, n: usize) -> bool { match &self.s { None => true, Some(s) => s[off..off + n].iter().all(|x| *x == CONC) } }
    pub fn byte(&self, p: &mut Pool, off: usize) -> Ex {
        if let Some(s) = &self.s { let x = s[off]; if x != CONC { let e = (x >> 8) as Ex; return p.extract(e, (x & 255) as u16 * 8, 8); } }
        p.c(8, self.b[off] as u128)
    }
    /// read an integer of n bytes (n <= 16)
    pub fn read(&self, p: &mut Pool, off: usize, n: usize) -> Val {
        if self.conc(off, n) {
            let mut t = [0u8; 16]; t[..n].copy_from_slice(&self.b[off..off + n]);
            return Val::c(u128::from_le_bytes(t));
        }
        let s = self.s.as_ref().unwrap();
        let x0 = s[off];
        if x0 != CONC && x0 & 255 == 0 {
            let e = (x0 >> 8) as Ex;
            if p.w(e) as usize == n * 8 && (1..n).all(|k| s[off + k] == x0 + k as u64) { return Val::S(e); }
        }
        let mut e = self.byte(p, off + n - 1);
        for k in (0..n - 1).rev() { let b = self.byte(p, off + k); e = p.concat(e, b); }
        match p.cv(e) { Some(v) => Val::c(v), None => Val::S(e) }
    }
    pub fn write_c(&mut self, off: usize, n: usize, v: u128) {
        self.b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut self.s { for k in 0..n { s[off + k] = CONC; } }
    }
    pub fn write_s(&mut self, p: &mut Pool, off: usize, n: usize, e: Ex) {
        let e = if p.w(e) as usize != n * 8 { p.zext(e, n as u16 * 8) } else { e };
        if let Some(v) = p.cv(e) { return self.write_c(off, n, v); }
        let len = self.b.len();
        let s = self.s.get_or_insert_with(|| vec![CONC; len]);
        for k in 0..n {
            // a byte that folds to a constant stays concrete
            let be = if n > 1 { p.extract(e, k as u16 * 8, 8) } else { e };
            if let Some(v) = p.cv(be) { self.b[off + k] = v as u8; s[off + k] = CONC; }
            else { s[off + k] = ((e as u64) << 8) | k as u64; }
        }
    }
}
