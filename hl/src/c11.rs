//! C11: source text to tokens.
use kit::*;
use llrl::lexer::lex;
use llrl::source_loc::{Location, LocationRange};
use llrl::string;
use llrl::token::{Token, TokenRep};

// Every escape reads back as the character it stands for, and every readable escape is the one printed.
kit::obligation!(escapes, kani, unwind = 6, |s| {
    let c = s.char();
    note(|| format!("character {:?}", c));
    if let Some(e) = string::escape_char(c) {
        let b = e.as_bytes();
        chk!(b.len() == 2 && b[0] == b'\\', "an escape is a backslash and one letter");
        chk!(string::unescape_char(b[1] as char) == Some(c), "an escape reads back as its character");
        reach!("escaped");
    }
    if let Some(d) = string::unescape_char(c) {
        let e = string::escape_char(d);
        chk!(e.is_some() && e.unwrap().len() == 2 && e.unwrap().as_bytes()[1] as u32 == c as u32, "a readable escape is the one that is printed");
        reach!("unescaped");
    }
    if matches!(c, '"' | '\\' | '\n' | '\r' | '\t') { chk!(string::escape_char(c).is_some(), "quotes, backslashes and control characters are escaped"); }
});
/// Line and column (in bytes) after a text.
fn after(mut l: Location, t: &str) -> Location {
    for b in t.bytes() {
        l.offset += 1;
        if b == b'\n' { l.line += 1; l.character = 0 } else { l.character += 1 }
    }
    l
}
// A location after a one-byte character: one more byte on the line, or the start of the next.
// (the standard library's search for the last newline is replaced by its contract)
#[cfg(kani)]
fn last_of(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 { i -= 1; if text[i] == x { return Some(i) } }
    None
}
kit::obligation!(step, kani_stub(core::slice::memchr::memrchr => last_of), unwind = 4, |s| {
    let (c, o, n, k) = ([s.below(128) as u8], s.below(1 << 31) as u32, s.below(1 << 31) as u32, s.below(1 << 31) as u32);
    note(|| format!("{:?} after {}:{}:{}", c.map(|c| c as char), o, n, k));
    let t = unsafe { std::str::from_utf8_unchecked(&c[..]) };
    let mut l = Location { offset: o, line: n, character: k };
    let want = after(l, t);
    l.eat(t);
    chk!(l.offset == want.offset && l.line == want.line && l.character == want.character, "the location after a character");
    reach!("step");
});

#[cfg(not(kani))]
pub use whole::*;
#[cfg(not(kani))]
mod whole {
use super::*;
#[derive(Clone, Debug)]
pub struct Tok { pub at: usize, pub end: usize, pub rep: TokenRep }

fn id(c: char) -> bool { c.is_ascii_alphanumeric() || "!$%&*+-./:<=>?^_|".contains(c) }
fn number(s: &str) -> Option<TokenRep> {
    let (neg, body) = match s.as_bytes()[0] { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    if !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit()) {
        let mut v: u128 = 0;
        for b in body.bytes() { v = v.saturating_mul(10).saturating_add((b - b'0') as u128) }
        if !neg && v <= u64::MAX as u128 { return Some(TokenRep::Unsigned(v as u64)) }
        if neg && v <= 1u128 << 63 { return Some(TokenRep::Signed((v as u64).wrapping_neg() as i64)) }
    }
    // a decimal number with an optional point and exponent, or a name of a special value
    let l = body.to_ascii_lowercase();
    let special = matches!(l.as_str(), "inf" | "infinity" | "nan");
    let (m, e) = match l.split_once('e') { Some((m, e)) => (m, Some(e)), None => (l.as_str(), None) };
    let exp_ok = e.map_or(true, |e| { let e = e.strip_prefix(['+', '-']).unwrap_or(e); !e.is_empty() && e.bytes().all(|b| b.is_ascii_digit()) });
    let digits = m.bytes().filter(|b| b.is_ascii_digit()).count();
    let mant_ok = digits > 0 && m.bytes().all(|b| b.is_ascii_digit() || b == b'.') && m.bytes().filter(|b| *b == b'.').count() <= 1;
    if special || exp_ok && mant_ok { return Some(TokenRep::FPNumber(s.parse::<f64>().unwrap_or_else(|_| panic!("{} is a number", s)))) }
    None
}
/// The tokens of a text, by the language's lexical rules.
pub fn tokens(t: &str) -> Vec<Tok> {
    let cs: Vec<(usize, char)> = t.char_indices().collect();
    let pos = |i: usize| cs.get(i).map_or(t.len(), |c| c.0);
    let ch = |i: usize| cs.get(i).map(|c| c.1);
    let (mut out, mut i) = (vec![], 0);
    while let Some(c) = ch(i) {
        let st = i;
        let esc = |c: Option<char>| match c { Some('t') => Some('\t'), Some('r') => Some('\r'), Some('n') => Some('\n'), Some('"') => Some('"'), Some('\\') => Some('\\'), _ => None };
        let rep = match c {
            ' ' | '\t' | '\r' | '\n' => { while matches!(ch(i), Some(' ' | '\t' | '\r' | '\n')) { i += 1 } TokenRep::Whitespaces }
            ';' => { while !matches!(ch(i), None | Some('\n')) { i += 1 } if ch(i).is_some() { i += 1 } TokenRep::LineComment }
            c if id(c) => {
                while ch(i).map_or(false, id) { i += 1 }
                let s = &t[pos(st)..pos(i)];
                match s { "." => TokenRep::Dot, "?" => TokenRep::Question, "!" => TokenRep::Exclamation, _ => number(s).unwrap_or_else(|| TokenRep::Symbol(s.to_string())) }
            }
            '"' => {
                i += 1;
                let mut b = String::new();
                loop { match ch(i) {
                    Some('"') => { i += 1; break TokenRep::String(b) }
                    Some('\\') => match esc(ch(i + 1)) { Some(c) => { b.push(c); i += 2 } None => { i += 1; break TokenRep::UnterminatedString } },
                    Some(c) => { b.push(c); i += 1 }
                    None => break TokenRep::UnterminatedString,
                } }
            }
            '#' if ch(i + 1) == Some('\\') => { i += 2; match ch(i) {
                Some('\\') => match esc(ch(i + 1)) { Some(c) => { i += 2; TokenRep::Char(c) } None => { i += 1; TokenRep::UnterminatedChar } },
                Some(c) => { i += 1; TokenRep::Char(c) }
                None => TokenRep::UnterminatedChar,
            } }
            '#' if ch(i + 1) == Some('t') => { i += 2; TokenRep::True }
            '#' if ch(i + 1) == Some('f') => { i += 2; TokenRep::False }
            ',' if ch(i + 1) == Some('@') => { i += 2; TokenRep::CommaAt }
            c => { i += 1; match c {
                '(' => TokenRep::LParen, ')' => TokenRep::RParen, '[' => TokenRep::LBrack, ']' => TokenRep::RBrack, '{' => TokenRep::LBrace, '}' => TokenRep::RBrace,
                '\'' => TokenRep::Quote, '`' => TokenRep::Backquote, '\\' => TokenRep::Backslash, '~' => TokenRep::Tilde, ',' => TokenRep::Comma, '@' => TokenRep::At,
                _ => TokenRep::UnknownCharacter } }
        };
        out.push(Tok { at: pos(st), end: pos(i), rep });
    }
    out
}
pub fn same(a: &TokenRep, b: &TokenRep) -> bool {
    match (a, b) { (TokenRep::FPNumber(a), TokenRep::FPNumber(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(), _ => a == b }
}
const PIECES: &[&str] = &["(", ")", "[", "]", "{", "}", "'", "`", ",", ",@", "@", "~", "\\", "#t", "#f", "#", "#\\", "\"", ";", "\n", " ", "\t", "\r", ".", "?", "!", "-", "+", "0", "1", "9", "e", "E",
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "0x1F", "inf", "nan", "infinity", "NaN", "1e400", "1e-400", "0.1", "2.5", "a", "n", "t", "r", "z", "A", "Z", "_", "^", "|", "/", ":", "<", "=", ">", "$", "%", "&", "*",
    "\\n", "\\t", "\\\\", "\\\"", "\\r", "\\x", "é", "話", "\u{1f600}", "\0", "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{b}", "\u{c}", "\u{7f}", "#\\a", "\"a\"", "-0", "00", "1_000", "1.e5", ".5", "5.", "..", "-.", "+.5e-3"];
pub fn text<S: Src>(s: &mut S, max: u64) -> String {
    let n = s.below(max);
    let mut t = String::new();
    for _ in 0..n {
        if s.below(8) == 0 { t.push(s.char()) } else { t.push_str(PIECES[s.below(PIECES.len() as u64) as usize]) }
    }
    t
}
kit::obligation!(tokens_of, native, |s| {
    let t = text(s, 24);
    note(|| format!("{:?}", t));
    let got: Vec<Token> = lex(&t);
    let want = tokens(&t);
    let mut at = Location::new();
    for (g, w) in got.iter().zip(&want) {
        chk!(g.range.start == at, "a token starts where the previous one ends");
        chk!(same(&g.rep, &w.rep), "a token is what the lexical rules say");
        chk!(g.range.start.offset as usize == w.at && g.range.end.offset as usize == w.end, "a token is as long as the lexical rules say");
        chk!(g.range.end.offset > g.range.start.offset, "a token is not empty");
        at = after(at, &t[w.at..w.end]);
        chk!(g.range.end == at, "line and column after a token");
        chk!(g.range.review(&t) == &t[w.at..w.end], "the text of a token");
    }
    chk!(got.len() == want.len(), "the tokens cover the whole text");
    reach!("tokens");
});
// Splitting a text at a token boundary does not change its tokens; printing a token gives its text back.
kit::obligation!(printed, native, |s| {
    let t = text(s, 12);
    note(|| format!("{:?}", t));
    for tok in lex(&t) {
        if tok.rep.is_ambient() || tok.rep.is_error() || tok.rep.is_eof() { continue }
        let p = tok.rep.to_string();
        let back = lex(&p);
        chk!(back.len() == 1, "a printed token reads back as one token");
        let ok = match (&back[0].rep, &tok.rep) {
            (TokenRep::FPNumber(a), TokenRep::FPNumber(b)) => a == b || a.is_nan() && b.is_nan(),
            // (a whole number is printed without a point, and -0 is the number 0)
            (TokenRep::Unsigned(a), TokenRep::FPNumber(b)) => *a as f64 == *b,
            (TokenRep::Signed(a), TokenRep::FPNumber(b)) => *a as f64 == *b,
            (TokenRep::Unsigned(0), TokenRep::Signed(0)) => true,
            (a, b) => a == b,
        };
        chk!(ok, "a printed token reads back as itself");
        reach!("printed");
    }
});
kit::obligation!(strings, native, |s| {
    let t = text(s, 16);
    note(|| format!("{:?}", t));
    let e = string::escape(&t);
    chk!(!e.contains(['\n', '\r', '\t']), "an escaped text has no control characters that an escape exists for");
    let mut want = String::new();
    for c in t.chars() { match c { '\n' => want.push_str("\\n"), '\r' => want.push_str("\\r"), '\t' => want.push_str("\\t"), '"' => want.push_str("\\\""), '\\' => want.push_str("\\\\"), c => want.push(c) } }
    chk!(*e == *want, "every character that needs an escape gets its own and no other does");
    chk!(string::unescape(&e).as_deref() == Some(&*t), "an escaped text reads back as itself");
    // reading any text
    let (mut r, mut it, mut bad) = (String::new(), t.chars(), false);
    while let Some(c) = it.next() {
        if c != '\\' { r.push(c); continue }
        match it.next() { Some('n') => r.push('\n'), Some('r') => r.push('\r'), Some('t') => r.push('\t'), Some('"') => r.push('"'), Some('\\') => r.push('\\'), _ => { bad = true; break } }
    }
    chk!(string::unescape(&t).as_deref() == if bad { None } else { Some(&*r) }, "escapes are replaced one by one and unknown ones are refused");
    reach!("strings");
});
kit::obligation!(locations, native, |s| {
    let t = text(s, 24);
    let cuts: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
    let a = cuts[s.below(cuts.len() as u64) as usize];
    let b = cuts[s.below(cuts.len() as u64) as usize];
    let (a, b) = (a.min(b), a.max(b));
    note(|| format!("{:?} {}..{}", t, a, b));
    let la = after(Location::new(), &t[..a]);
    let lb = after(Location::new(), &t[..b]);
    chk!(Location::from_offset(&t, a as u32) == la, "the location of an offset");
    chk!(LocationRange::from_range(&t, a as u32..b as u32) == LocationRange::new(la, lb), "the locations of a range");
    let mut l = la;
    l.eat(&t[a..b]);
    chk!(l == lb, "a location moves over a text");
    chk!(LocationRange::new(la, lb).review(&t) == &t[a..b], "the text of a range");
    reach!("locations");
});
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C11", c11::escapes, 1, kani),
        kit::entry!("C11", c11::step, 1, kani),
        kit::entry!("C11", c11::tokens_of, 3, native, "texts of at most 24 pieces"),
        kit::entry!("C11", c11::printed, 1, native, "texts of at most 12 pieces"),
        kit::entry!("C11", c11::strings, 1, native, "texts of at most 16 pieces"),
        kit::entry!("C11", c11::locations, 1, native, "texts of at most 24 pieces"),
    ]
}
}
