use crate::sx;
use llrl::lexer::Lexer;
use llrl::token::*;

/// a text of n characters; each is an arbitrary ASCII byte, or one of a few multi-byte characters
pub fn text(n: usize) -> String {
    let b = sx::bytes(n);
    for x in &b { sx::assume(*x < 128); }
    unsafe { String::from_utf8_unchecked(b) }
}
/// as text, with one more character of the given number of bytes put in at a place
fn text_with(n: usize, wide: usize, at: usize) -> String {
    if wide == 0 { return text(n); }
    let mut b = text(n).into_bytes();
    let mut c = sx::bytes(wide);
    let first = [0, 0, 0xc0u8, 0xe0, 0xf0][wide];
    // the shortest form of a character, and none of the surrogates
    for x in &mut c[1..] { *x = 0x80 | (*x & 0x3f); }
    c[0] = first | (c[0] & [0, 0, 0x1f, 0x0f, 0x07][wide]);
    match wide {
        2 => sx::assume(c[0] >= 0xc2),
        3 => { sx::assume(c[0] != 0xe0 || c[1] >= 0xa0); sx::assume(c[0] != 0xed || c[1] < 0xa0) }
        _ => { sx::assume(c[0] != 0xf0 || c[1] >= 0x90); sx::assume(c[0] < 0xf4 || (c[0] == 0xf4 && c[1] < 0x90)) }
    }
    for (i, x) in c.into_iter().enumerate() { b.insert(at + i, x); }
    unsafe { String::from_utf8_unchecked(b) }
}
#[derive(PartialEq, Clone, Copy)]
enum K { Space, Comment, Id, Str, NoStr, Char, NoChar, One(u8), CommaAt, True, False, Unknown }
fn id_byte(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!$%&*+-./:<=>?^_|".contains(&c) }
fn width(c: u8) -> usize { if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 } }
fn esc(c: u8) -> bool { b"trn\"\\".contains(&c) }
/// what begins at the front of a text, and how many bytes it has: the lexical grammar
fn front(b: &[u8]) -> (usize, K) {
    let run = |f: fn(u8) -> bool| b.iter().take_while(|c| f(**c)).count();
    let space = |c: u8| matches!(c, b' ' | b'\t' | b'\r' | b'\n');
    if space(b[0]) { return (run(|c| matches!(c, b' ' | b'\t' | b'\r' | b'\n')), K::Space); }
    if b[0] == b';' { let k = run(|c| c != b'\n'); return (if k < b.len() { k + 1 } else { k }, K::Comment); }
    if id_byte(b[0]) { return (run(id_byte), K::Id); }
    if b[0] == b'"' {
        let mut i = 1;
        loop {
            if i == b.len() { return (i, K::NoStr); }
            if b[i] == b'"' { return (i + 1, K::Str); }
            if b[i] == b'\\' { if i + 1 < b.len() && esc(b[i + 1]) { i += 2; continue; } return (i + 1, K::NoStr); }
            i += 1;
        }
    }
    if b[0] == b'#' && b.len() > 1 {
        match b[1] {
            b't' => return (2, K::True),
            b'f' => return (2, K::False),
            b'\\' => {
                if b.len() == 2 { return (2, K::NoChar); }
                if b[2] != b'\\' { return (2 + width(b[2]), K::Char); }
                return if b.len() > 3 && esc(b[3]) { (4, K::Char) } else { (3, K::NoChar) };
            }
            _ => {}
        }
    }
    if b.starts_with(b",@") { return (2, K::CommaAt); }
    if b"()[]{}'`\\~,@".contains(&b[0]) { return (1, K::One(b[0])); }
    (width(b[0]), K::Unknown)
}
fn kind(t: &TokenRep, s: &str) -> K {
    use TokenRep::*;
    match t {
        Whitespaces => K::Space, LineComment => K::Comment,
        Signed(_) | Unsigned(_) | FPNumber(_) => K::Id,
        Symbol(n) => { sx::check(n == s, c"a symbol is named by its text"); K::Id }
        Dot => { sx::check(s == ".", c"a dot is a dot"); K::Id }
        Question => { sx::check(s == "?", c"a question mark is one"); K::Id }
        Exclamation => { sx::check(s == "!", c"an exclamation mark is one"); K::Id }
        String(_) => K::Str, UnterminatedString => K::NoStr, Char(_) => K::Char, UnterminatedChar => K::NoChar,
        LParen => K::One(b'('), RParen => K::One(b')'), LBrack => K::One(b'['), RBrack => K::One(b']'), LBrace => K::One(b'{'), RBrace => K::One(b'}'),
        Quote => K::One(b'\''), Backquote => K::One(b'`'), Backslash => K::One(b'\\'), Tilde => K::One(b'~'), Comma => K::One(b','), At => K::One(b'@'),
        CommaAt => K::CommaAt, True => K::True, False => K::False,
        UnknownCharacter => K::Unknown, Eof => K::Unknown,
    }
}
#[no_mangle]
pub extern "C" fn h_lex_tile(n: u64, wide: u64, at: u64) {
    let s = text_with(n as usize, wide as usize, at as usize);
    let (mut off, mut line, mut col) = (0usize, 0u32, 0u32);
    let mut k = 0;
    for t in Lexer::new(&s) {
        sx::check(t.range.start.offset as usize == off, c"a token starts where the previous one ended");
        sx::check(t.range.start.line == line && t.range.start.character == col, c"line and column of the token start");
        let end = t.range.end.offset as usize;
        sx::check(end > off && end <= s.len(), c"a token is non-empty and inside the text");
        let (len, want) = front(&s.as_bytes()[off..]);
        sx::check(end == off + len, c"a token ends where the grammar says");
        sx::check(kind(&t.rep, &s[off..end]) == want, c"a token is of the kind the grammar says");
        for b in &s.as_bytes()[off..end] { if *b == b'\n' { line += 1; col = 0; } else { col += 1; } }
        sx::check(t.range.end.line == line && t.range.end.character == col, c"line and column of the token end");
        off = end; k += 1;
    }
    sx::check(off == s.len(), c"the tokens cover the whole text");
    sx::observe(1, k);
    sx::reach(1);
}
