//! F02: literals.
use crate::sx;
use llrl::lexer::Lexer;
use llrl::string::*;
use llrl::token::*;

/// up to n characters: ASCII, or one of some longer ones
pub fn text(n: usize) -> String {
    let mut s: Vec<u8> = vec![];
    for _ in 0..n {
        match sx::choose(2) {
            0 => { let b = sx::u8(); sx::assume(b < 128); s.push(b) }
            _ => { let x = sx::int(11) as u32; sx::assume(x >= 128); s.push(0xc0 | (x >> 6) as u8); s.push(0x80 | (x & 63) as u8) }
        }
    }
    unsafe { String::from_utf8_unchecked(s) }
}
fn one(s: &str) -> Option<TokenRep> {
    let mut it = Lexer::new(s);
    let t = it.next();
    if it.next().is_some() { return None }
    t.map(|t| t.rep)
}
#[no_mangle]
pub extern "C" fn h_escape(n: u64) {
    let s = text(n as usize);
    let e = escape(&s).into_owned();
    for b in e.bytes() { sx::check(b != b'\n' && b != b'\t' && b != b'\r', c"no control character is printed raw"); }
    match unescape(&e) { Some(t) => sx::check(t == s, c"unescape undoes escape"), None => sx::check(false, c"what escape gives can be unescaped") }
    let lit = TokenRep::String(s.clone()).to_string();
    match one(&lit) { Some(TokenRep::String(t)) => sx::check(t == s, c"a printed string reads back"), _ => sx::check(false, c"a printed string is one string token") }
    sx::reach(1);
}
#[no_mangle]
pub extern "C" fn h_char() {
    let s = text(1);
    let c = s.chars().next().unwrap();
    let lit = TokenRep::Char(c).to_string();
    match one(&lit) { Some(TokenRep::Char(d)) => sx::check(c == d, c"a printed character reads back"), _ => sx::check(false, c"a printed character is one character token") }
    sx::reach(1);
}
/// a text in quotes: the characters between them, with the escapes replaced
#[no_mangle]
pub extern "C" fn h_unescape(n: u64) {
    let b = sx::bytes(n as usize);
    for x in &b { sx::assume(*x < 128); }
    let mut want: Option<Vec<u8>> = Some(vec![]);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            let r = if i + 1 == b.len() { None } else { match b[i + 1] { b't' => Some(9), b'n' => Some(10), b'r' => Some(13), b'"' => Some(34), b'\\' => Some(92), _ => None } };
            match r { None => { want = None; break } Some(x) => want.as_mut().unwrap().push(x) }
            i += 2;
        } else { want.as_mut().unwrap().push(b[i]); i += 1; }
    }
    let s = unsafe { String::from_utf8_unchecked(b.clone()) };
    let got = unescape(&s).map(|x| x.into_owned().into_bytes());
    sx::check(got == want, c"unescape replaces exactly the escapes");
    // the same text as a string literal
    let mut q = b"\"".to_vec(); q.extend(&b); q.push(b'"');
    let mut end = None; let mut i = 0; let mut ok = true;
    while i < b.len() + 1 {
        let c = q[i + 1];
        if c == b'"' { end = Some(i); break }
        if c == b'\\' { if i + 1 > b.len() || !matches!(q[i + 2], b't' | b'n' | b'r' | b'"' | b'\\') { ok = false; break } i += 2 } else { i += 1 }
    }
    let qs = unsafe { String::from_utf8_unchecked(q) };
    let t = Lexer::new(&qs).next().unwrap();
    match (end, ok) {
        (Some(e), true) => {
            sx::check(t.range.end.offset as usize == e + 2, c"a string literal ends at its closing quote");
            let w = unescape(&s[..e]);
            match (t.rep, w) { (TokenRep::String(g), Some(w)) => sx::check(g == w, c"the value of a string literal"), _ => sx::check(false, c"a closed literal is a string") }
            sx::reach(2);
        }
        _ => { sx::check(matches!(t.rep, TokenRep::UnterminatedString), c"an unclosed or ill-escaped literal is an error"); sx::reach(3); }
    }
    sx::reach(1);
}
/// what integer a word denotes
fn num(b: &[u8]) -> Option<(bool, u64)> {
    let (neg, plus, d) = match b { [b'-', d @ ..] => (true, false, d), [b'+', d @ ..] => (false, true, d), d => (false, false, d) };
    let _ = plus;
    if d.is_empty() { return None }
    let mut v: u128 = 0;
    for x in d { if !(*x >= b'0' && *x <= b'9') { return None } v = v * 10 + (*x - b'0') as u128; }
    if neg { if v <= 1 << 63 { Some((true, (v as u64).wrapping_neg())) } else { None } }
    else if v >> 64 == 0 { Some((false, v as u64)) } else { None }
}
fn word(b: Vec<u8>) {
    let want = num(&b);
    let s = unsafe { String::from_utf8_unchecked(b) };
    let t = Lexer::new(&s).next().unwrap();
    match (t.rep, want) {
        (TokenRep::Unsigned(v), w) => { sx::check(t.range.end.offset as usize != s.len() || w == Some((false, v)), c"an unsigned literal has the value of its digits"); sx::reach(1) }
        (TokenRep::Signed(v), w) => { sx::check(t.range.end.offset as usize != s.len() || w == Some((true, v as u64)), c"a signed literal has the value of its digits"); sx::reach(2) }
        (_, w) => { sx::check(w.is_none(), c"a numeral in range is an integer token"); sx::reach(3) }
    }
}
fn idch(x: u8) -> bool { x.is_ascii_alphanumeric() || b"!$%&*+-./:<=>?^_|".contains(&x) }
/// words of n arbitrary symbol characters other than those that make a decimal fraction
#[no_mangle]
pub extern "C" fn h_num(n: u64) {
    let b = sx::bytes(n as usize);
    for x in &b { sx::assume((*x >= b'0' && *x <= b'9') || *x == b'-' || *x == b'+' || *x == b'x' || *x == b'a'); }
    word(b)
}
/// the limits of the 64-bit types with the last k digits arbitrary, with or without an extra digit
#[no_mangle]
pub extern "C" fn h_num_edge(which: u64, k: u64) {
    let base: &[u8] = match which { 0 => b"18446744073709551615", 1 => b"-9223372036854775808", 2 => b"9223372036854775807", _ => b"+18446744073709551615" };
    let mut b = base.to_vec();
    let l = b.len();
    for i in l - k as usize..l { let d = sx::u8(); sx::assume(d >= b'0' && d <= b'9'); b[i] = d; }
    word(b)
}
/// integers print and read back; the smallest 2^bits values, or with bits >= 100 the largest 2^(bits - 100)
#[no_mangle]
pub extern "C" fn h_int_print(neg: u64, bits: u64) {
    let far = bits >= 100;
    let v = sx::int((bits % 100) as u32);
    if neg != 0 {
        let s = if far { i64::MIN + v as i64 } else { -1 - v as i64 };
        match one(&TokenRep::Signed(s).to_string()) { Some(TokenRep::Signed(w)) => sx::check(w == s, c"a printed negative integer reads back"), _ => sx::check(false, c"a printed negative integer is one token") }
    } else {
        let v = if far { u64::MAX - v } else { v };
        match one(&TokenRep::Unsigned(v).to_string()) { Some(TokenRep::Unsigned(w)) => sx::check(w == v, c"a printed integer reads back"), _ => sx::check(false, c"a printed integer is one token") }
    }
    sx::reach(1);
}
#[allow(dead_code)] pub fn is_idch(x: u8) -> bool { idch(x) }
