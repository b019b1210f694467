//! The reader of the compiler written in Rust, with its results written out as numbers (C01).
use llrl::lexer::Lexer;
use llrl::parser::parse;
use llrl::sexp::*;
use llrl::source_loc::*;
use llrl::token::*;

struct Out { p: *mut u64, n: u64 }
impl Out {
    fn put(&mut self, v: u64) { unsafe { *self.p.add(self.n as usize) = v } self.n += 1; }
    fn text(&mut self, s: &str) { self.put(s.len() as u64); for b in s.bytes() { self.put(b as u64) } }
    fn loc(&mut self, l: Location) { self.put(l.offset as u64); self.put(l.line as u64); self.put(l.character as u64); }
}
unsafe fn text<'a>(p: *const u8, n: u64) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n as usize)) }
#[no_mangle]
pub unsafe extern "C" fn rd_rust_lex(p: *const u8, n: u64, out: *mut u64) -> u64 {
    let mut o = Out { p: out, n: 0 };
    for t in Lexer::new(text(p, n)) {
        o.loc(t.range.start);
        o.loc(t.range.end);
        match t.rep {
            TokenRep::Signed(v) => { o.put(1); o.put(v as u64) }
            TokenRep::Unsigned(v) => { o.put(2); o.put(v) }
            TokenRep::FPNumber(v) => { o.put(3); o.put(v.to_bits()) }
            TokenRep::Symbol(s) => { o.put(4); o.text(&s) }
            TokenRep::String(s) => { o.put(5); o.text(&s) }
            TokenRep::Char(c) => { o.put(6); o.put(c as u64) }
            TokenRep::Dot => o.put(7), TokenRep::Question => o.put(8), TokenRep::Exclamation => o.put(9),
            TokenRep::LParen => o.put(10), TokenRep::RParen => o.put(11), TokenRep::LBrack => o.put(12), TokenRep::RBrack => o.put(13), TokenRep::LBrace => o.put(14), TokenRep::RBrace => o.put(15),
            TokenRep::Quote => o.put(16), TokenRep::Backquote => o.put(17), TokenRep::Backslash => o.put(18), TokenRep::Tilde => o.put(19),
            TokenRep::Comma => o.put(20), TokenRep::CommaAt => o.put(21), TokenRep::At => o.put(22), TokenRep::True => o.put(23), TokenRep::False => o.put(24),
            TokenRep::Whitespaces => o.put(25), TokenRep::LineComment => o.put(26),
            TokenRep::UnterminatedString => o.put(27), TokenRep::UnterminatedChar => o.put(28), TokenRep::UnknownCharacter => o.put(29),
            _ => o.put(30),
        }
    }
    o.n
}
fn tree(o: &mut Out, t: &SourceLocationTable, s: &Sexp) {
    if !matches!(&s.rep, SexpRep::Symbol(w) if w.len() >= 4) {
        let (_, r) = t.review(s.loc);
        o.put(r.start.offset as u64);
        o.put(r.end.offset as u64);
    }
    rep(o, t, s);
}
fn rep(o: &mut Out, t: &SourceLocationTable, s: &Sexp) {
    match &s.rep {
        SexpRep::Integer(signed, v) => { o.put(1 + *signed as u64); o.put(*v) }
        SexpRep::FPNumber(v) => { o.put(3); o.put(v.to_bits()) }
        SexpRep::Bool(b) => { o.put(4); o.put(*b as u64) }
        SexpRep::Symbol(s) => { o.put(5); o.text(s) }
        SexpRep::String(s) => { o.put(6); o.text(s) }
        SexpRep::Char(c) => { o.put(7); o.put(*c as u64) }
        SexpRep::List(v) => { o.put(8); o.put(v.len() as u64); for x in v { tree(o, t, x) } }
        SexpRep::ListLike(l) => { o.put(9); o.put(1 + l.1.len() as u64); tree(o, t, &l.0); for x in &l.1 { tree(o, t, x) } rep(o, t, &l.2) }
        SexpRep::Native(_) => o.put(10),
    }
}
/// a number for what the text was refused with, or 0 and the expressions
#[no_mangle]
pub unsafe extern "C" fn rd_rust_parse(p: *const u8, n: u64, out: *mut u64) -> u64 {
    let mut o = Out { p: out, n: 0 };
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&llrl::path::Path::current());
    let got = parse::<Ss, _>(&mut locator, Lexer::new(text(p, n))).aggregate_errors();
    table.complete_locate(locator);
    match got {
        Ok(g) => { o.put(0); o.put(g.ss.len() as u64); for s in &g.ss { tree(&mut o, &table, s) } }
        Err(_) => o.put(1),
    }
    o.n
}
