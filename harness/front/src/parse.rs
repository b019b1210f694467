//! F03: the parser against the grammar of S-expressions.
use crate::sx;
use llrl::parser::parse;
use llrl::sexp::*;
use llrl::source_loc::*;
use llrl::token::*;

#[derive(Clone, Copy, PartialEq)]
enum K { Sym, LP, RP, LB, RB, LC, RC, Quote, Back, Comma, CommaAt, Tilde, Bslash, At, Dot, Quest, Excl, Int, Str, Chr, True, False, Err, Space }
const FULL: [K; 24] = [K::Sym, K::LP, K::RP, K::LB, K::RB, K::LC, K::RC, K::Quote, K::Back, K::Comma, K::CommaAt, K::Tilde, K::Bslash, K::At, K::Dot, K::Quest, K::Excl, K::Int, K::Str, K::Chr, K::True, K::False, K::Err, K::Space];
const CORE: [K; 9] = [K::Sym, K::LP, K::RP, K::LC, K::RC, K::At, K::Dot, K::Quest, K::Quote];
const NEST: [K; 6] = [K::Sym, K::LP, K::RP, K::LB, K::RB, K::Dot];

fn rep(k: K, i: usize) -> TokenRep {
    match k {
        K::Sym => TokenRep::Symbol(((b'a' + i as u8) as char).to_string()),
        K::LP => TokenRep::LParen, K::RP => TokenRep::RParen, K::LB => TokenRep::LBrack, K::RB => TokenRep::RBrack, K::LC => TokenRep::LBrace, K::RC => TokenRep::RBrace,
        K::Quote => TokenRep::Quote, K::Back => TokenRep::Backquote, K::Comma => TokenRep::Comma, K::CommaAt => TokenRep::CommaAt, K::Tilde => TokenRep::Tilde, K::Bslash => TokenRep::Backslash,
        K::At => TokenRep::At, K::Dot => TokenRep::Dot, K::Quest => TokenRep::Question, K::Excl => TokenRep::Exclamation,
        K::Int => TokenRep::Unsigned(i as u64), K::Str => TokenRep::String(((b'A' + i as u8) as char).to_string()), K::Chr => TokenRep::Char((b'0' + i as u8) as char),
        K::True => TokenRep::True, K::False => TokenRep::False, K::Err => TokenRep::UnknownCharacter, K::Space => TokenRep::Whitespaces,
    }
}
/// reference tree; every node has its first and last token
#[derive(Clone)]
enum N { Atom(usize), Word(&'static str), List(Vec<S>), Dotted(Vec<S>, Box<S>) }
#[derive(Clone)]
struct S { n: N, from: usize, to: usize }

struct R<'a> { k: &'a [K], at: usize }
impl<'a> R<'a> {
    fn peek(&mut self) -> Option<K> { while self.at < self.k.len() && self.k[self.at] == K::Space { self.at += 1 } self.k.get(self.at).copied() }
    /// the last token taken
    fn last(&self) -> usize { let mut i = self.at; while i > 0 && self.k[i - 1] == K::Space { i -= 1 } i.wrapping_sub(1) }
    fn is(&mut self, k: K) -> bool { if self.peek() == Some(k) { self.at += 1; true } else { false } }
    fn starts(&mut self) -> bool { !matches!(self.peek(), None | Some(K::At | K::Dot | K::Quest | K::Excl | K::RP | K::RB | K::RC)) }
    fn seq(&mut self) -> Option<Vec<S>> { let mut v = vec![]; while self.starts() { v.push(self.sexp()?) } Some(v) }
    fn body(&mut self) -> Option<N> {
        let mut v = self.seq()?;
        if self.is(K::At) {
            let from = { self.peek(); self.at };
            let n = self.body()?;
            let to = self.last();
            v.push(S { n, from, to });
            Some(N::List(v))
        } else if self.is(K::Dot) {
            let s = self.sexp()?;
            if v.is_empty() { return Some(s.n) }
            match s.n {
                N::List(l) => { v.extend(l); Some(N::List(v)) }
                N::Dotted(l, t) => { v.extend(l); Some(N::Dotted(v, t)) }
                n => Some(N::Dotted(v, Box::new(S { n, ..s }))),
            }
        } else { Some(N::List(v)) }
    }
    fn sexp(&mut self) -> Option<S> {
        let k = self.peek()?;
        let from = self.at;
        let word = match k { K::Quote => "quote", K::Back => "quasiquote", K::Comma => "unquote", K::CommaAt => "unquote-splicing", K::Tilde => "load", K::Bslash => "capture", _ => "" };
        let n = match k {
            K::Sym | K::Int | K::Str | K::Chr | K::True | K::False => { self.at += 1; N::Atom(from) }
            K::LP => { self.at += 1; let b = self.body()?; if !self.is(K::RP) { return None } b }
            K::LB => { self.at += 1; let b = self.body()?; if !self.is(K::RB) { return None } b }
            _ if !word.is_empty() => { self.at += 1; let s = self.sexp()?; N::List(vec![S { n: N::Word(word), from, to: from }, s]) }
            _ => return None,
        };
        let mut s = S { n, from, to: self.last() };
        loop {
            if self.is(K::Quest) { let to = self.at - 1; s = S { n: N::List(vec![S { n: N::Word("try?"), from, to }, s]), from, to } }
            else if self.is(K::Excl) { let to = self.at - 1; s = S { n: N::List(vec![S { n: N::Word("try!"), from, to }, s]), from, to } }
            else if self.is(K::LC) {
                let mut ss = self.seq()?;
                if !self.is(K::RC) { return None }
                let to = self.at - 1;
                let mut v = vec![S { n: N::Word("annotate"), from, to }, s]; v.append(&mut ss);
                s = S { n: N::List(v), from, to };
            } else { return Some(s) }
        }
    }
}
fn agree(t: &SourceLocationTable, ks: &[K], got: &Sexp, want: &S) -> bool {
    let (_, r) = t.review(got.loc);
    if want.to != usize::MAX && want.from <= want.to && want.to < ks.len() && (r.start.offset as usize != 2 * want.from || r.end.offset as usize != 2 * want.to + 2) { return false }
    match (&got.rep, &want.n) {
        (SexpRep::Symbol(s), N::Word(w)) => s == w,
        (r, N::Atom(i)) => match (r, rep(ks[*i], *i)) {
            (SexpRep::Symbol(a), TokenRep::Symbol(b)) => **a == *b,
            (SexpRep::Integer(false, a), TokenRep::Unsigned(b)) => *a == b,
            (SexpRep::String(a), TokenRep::String(b)) => **a == *b,
            (SexpRep::Char(a), TokenRep::Char(b)) => *a == b,
            (SexpRep::Bool(a), b) => *a == (b == TokenRep::True),
            _ => false,
        },
        (SexpRep::List(a), N::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(t, ks, x, y)),
        (SexpRep::ListLike(l), N::Dotted(b, e)) => l.1.len() + 1 == b.len() && agree(t, ks, &l.0, &b[0]) && l.1.iter().zip(&b[1..]).all(|(x, y)| agree(t, ks, x, y)) && agree(t, ks, &l.2, e),
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_parse(n: u64, alphabet: u64) {
    let al: &[K] = match alphabet { 0 => &FULL, 1 => &CORE, _ => &NEST };
    let ks: Vec<K> = (0..n).map(|_| al[sx::choose(al.len())]).collect();
    let loc = |o: usize| { let mut l = Location::new(); l.offset = o as u32; l };
    let toks: Vec<Token> = ks.iter().enumerate().map(|(i, k)| Token::new(LocationRange::new(loc(2 * i), loc(2 * i + 2)), rep(*k, i))).collect();
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&llrl::path::Path::current());
    let got = parse::<Ss, _>(&mut locator, toks).aggregate_errors();
    table.complete_locate(locator);
    let mut r = R { k: &ks, at: 0 };
    let want = r.seq();
    let want = if r.peek().is_some() { None } else { want };
    match (got, want) {
        (Ok(g), Some(w)) => {
            sx::check(g.ss.len() == w.len(), c"number of top-level expressions");
            for (x, y) in g.ss.iter().zip(&w) { sx::check(agree(&table, &ks, x, y), c"the tree and its locations are those of the text") }
            sx::reach(1);
        }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, c"ill-formed text is refused"),
        (Err(_), Some(_)) => sx::check(false, c"well-formed text is accepted"),
    }
}
// ---- printing
/// no annotate, try? or try!: what they print as a suffix of can be a prefix form, which does not read back
fn tree(depth: u64, width: u64, l: SourceLocation) -> Sexp {
    match sx::choose(if depth == 0 { 3 } else { 5 }) {
        0 => Sexp::symbol(l, (if sx::int(1) == 1 { "a" } else { "quote" }).to_string()),
        1 => Sexp::unsigned(l, sx::int(3)),
        2 => Sexp::char(l, if sx::int(1) == 1 { '\n' } else { '(' }),
        3 => { let n = sx::choose(width as usize + 1); Sexp::list(l, (0..n).map(|_| tree(depth - 1, width, l)).collect()) }
        _ => { let a = tree(depth - 1, width, l); let b = tree(depth - 1, width, l); Sexp::cons(l, a, b) }
    }
}
fn same(a: &Sexp, b: &Sexp) -> bool {
    match (&a.rep, &b.rep) {
        (SexpRep::List(x), SexpRep::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (SexpRep::ListLike(x), SexpRep::ListLike(y)) => same(&x.0, &y.0) && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(x, y)| same(x, y)) && same(&x.2, &y.2),
        (x, y) => x == y,
    }
}
/// a printed S-expression reads back
#[no_mangle]
pub extern "C" fn h_print(depth: u64, width: u64) {
    let mut table = SourceLocationTable::new();
    let mut locator = table.begin_locate(&llrl::path::Path::current());
    let l = locator.issue(LocationRange::empty(Location::new()));
    let t = tree(depth, width, l);
    let s = t.to_string();
    let r = parse::<Ss, _>(&mut locator, llrl::lexer::Lexer::new(&s)).aggregate_errors();
    match r {
        Ok(g) => { sx::check(g.ss.len() == 1, c"one expression"); sx::check(same(&g.ss[0], &t), c"a printed S-expression reads back"); }
        Err(_) => sx::check(false, c"a printed S-expression is well-formed"),
    }
    sx::reach(1);
}
