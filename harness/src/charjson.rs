//! Text generators and a reference lexer for the character-level tokenizer.

use crate::Rng;
use osi::json::token::{self, Error, Sign, Token};
use std::borrow::Cow;
use std::ops::ControlFlow;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tk { E(Error<'static>), T(Token<'static>) }

/// Recording report, optionally stopping at the given report call.
#[derive(Default)]
pub struct Rec { pub out: Vec<Tk>, pub stop: Option<usize> }

pub const STOP: u32 = 4000;

impl Rec {
    fn put(&mut self, t: Tk) -> ControlFlow<u32> {
        let at = self.out.len();
        self.out.push(t);
        if self.stop == Some(at) { ControlFlow::Break(STOP + at as u32) } else { ControlFlow::Continue(()) }
    }
}

impl token::Report<u32> for Rec {
    fn report_error(&mut self, e: Error<'_>) -> ControlFlow<u32> { self.put(Tk::E(e.own())) }
    fn report_token(&mut self, t: Token<'_>) -> ControlFlow<u32> { self.put(Tk::T(t.own())) }
}

fn json_ws(c: char) -> bool { matches!(c, ' ' | '\n' | '\r' | '\t') }

/// Reference lexer over a complete text.
pub fn lex(text: &str, flags: u32) -> Vec<Tk> {
    let zero = flags & token::FLAG_ALLOW_LEADING_ZERO != 0;
    let plus = flags & token::FLAG_ALLOW_PLUS_SIGN != 0;
    let t: Vec<char> = text.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        let simple = match c {
            ':' => Some(Token::Colon),
            ',' => Some(Token::Comma),
            '[' => Some(Token::ArrayOpen),
            ']' => Some(Token::ArrayClose),
            '{' => Some(Token::ObjectOpen),
            '}' => Some(Token::ObjectClose),
            _ => None,
        };
        if let Some(s) = simple {
            o.push(Tk::T(s));
            i += 1;
        } else if c.is_whitespace() {
            let mut raw = String::new();
            while i < t.len() && t[i].is_whitespace() {
                if json_ws(t[i]) {
                    raw.push(t[i]);
                } else {
                    o.push(Tk::E(Error::CharacterStray(t[i])));
                }
                i += 1;
            }
            o.push(Tk::T(Token::Whitespace { raw: Cow::from(raw) }));
        } else if c == '"' {
            string(&t, &mut i, &mut o);
        } else if c == '#' || (c == '/' && t.get(i + 1) == Some(&'/')) {
            let start = if c == '#' { i + 1 } else { i };
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
            o.push(Tk::E(Error::Comment(Cow::from(t[start..i].iter().collect::<String>()))));
        } else if c == '=' {
            o.push(Tk::E(Error::CharacterStray('=')));
            o.push(Tk::T(Token::Colon));
            i += 1;
        } else if c == '+' && !plus {
            o.push(Tk::E(Error::CharacterStray('+')));
            i += 1;
        } else if c == '-' || c == '+' || c.is_ascii_digit() {
            number(&t, &mut i, zero, &mut o);
        } else {
            let mut k = String::from(c);
            i += 1;
            while i < t.len() && !":,[]{}-\"#/+=".contains(t[i]) && !t[i].is_whitespace() {
                k.push(t[i]);
                i += 1;
            }
            o.push(match &k[..] {
                "null" => Tk::T(Token::Null),
                "true" => Tk::T(Token::True),
                "false" => Tk::T(Token::False),
                _ => Tk::E(Error::KeywordUnknown(Cow::from(k))),
            });
        }
    }
    o
}

fn number(t: &[char], i: &mut usize, zero: bool, o: &mut Vec<Tk>) {
    let start = *i;
    let mut isign = Sign::Plus;
    let mut esign = Sign::Plus;
    let (mut int, mut frac, mut exp) = (vec![], vec![], vec![]);
    if matches!(t[*i], '-' | '+') {
        if t[*i] == '-' {
            isign = Sign::Minus;
        }
        *i += 1;
    }
    let digits = |i: &mut usize, v: &mut Vec<u8>| {
        while *i < t.len() && t[*i].is_ascii_digit() {
            v.push(t[*i] as u8 - b'0');
            *i += 1;
        }
    };
    digits(i, &mut int);
    if !zero && int.len() > 1 && int[0] == 0 {
        o.push(Tk::E(Error::CharacterStray((b'0' + int[1]) as char)));
    }
    let mut bad = int.is_empty();
    if !bad && t.get(*i) == Some(&'.') {
        *i += 1;
        digits(i, &mut frac);
        bad = frac.is_empty();
    }
    if !bad && matches!(t.get(*i), Some('e' | 'E')) {
        *i += 1;
        if matches!(t.get(*i), Some('-' | '+')) {
            if t[*i] == '-' {
                esign = Sign::Minus;
            }
            *i += 1;
        }
        digits(i, &mut exp);
        bad = exp.is_empty();
    }
    if bad {
        o.push(Tk::E(Error::NumberIncomplete));
    }
    o.push(Tk::T(Token::Number {
        raw: Cow::from(t[start..*i].iter().collect::<String>()),
        integer: Cow::from(int),
        fraction: Cow::from(frac),
        exponent: Cow::from(exp),
        integer_sign: isign,
        exponent_sign: esign,
    }));
}

fn string(t: &[char], i: &mut usize, o: &mut Vec<Tk>) {
    *i += 1;
    let start = *i;
    let mut chars = String::new();
    let simple = |c: char| match c {
        '"' | '\\' | '/' => Some(c),
        'b' => Some('\u{8}'),
        'f' => Some('\u{c}'),
        'n' => Some('\n'),
        'r' => Some('\r'),
        't' => Some('\t'),
        _ => None,
    };
    // Parse four hex digits; `Err(true)` for a bad digit, `Err(false)` at the end.
    let hex4 = |i: &mut usize| -> Result<u32, bool> {
        let mut v = 0;
        for _ in 0..4 {
            let Some(c) = t.get(*i) else { return Err(false) };
            let Some(d) = c.to_digit(16) else { return Err(true) };
            v = v * 16 + d;
            *i += 1;
        }
        Ok(v)
    };
    macro_rules! end { () => {{ *i = t.len(); o.push(Tk::E(Error::StringIncomplete)); return; }} }
    loop {
        let Some(&c) = t.get(*i) else { end!() };
        *i += 1;
        match c {
            '"' => {
                o.push(Tk::T(Token::String {
                    raw: Cow::from(t[start..*i - 1].iter().collect::<String>()),
                    chars: Cow::from(chars),
                }));
                return;
            },
            '\\' => {
                let Some(&e) = t.get(*i) else { end!() };
                *i += 1;
                if e != 'u' {
                    match simple(e) {
                        Some(v) => chars.push(v),
                        None => {
                            o.push(Tk::E(Error::StringEscapeInvalid(e)));
                            chars.push(e);
                        },
                    }
                    continue;
                }
                let v = match hex4(i) {
                    Ok(v) => v,
                    Err(false) => end!(),
                    Err(true) => {
                        o.push(Tk::E(Error::StringEscapeIncomplete));
                        continue;
                    },
                };
                match v {
                    0xdc00..=0xdfff => o.push(Tk::E(Error::StringSurrogateUnpaired)),
                    0xd800..=0xdbff => match t.get(*i) {
                        None => end!(),
                        Some('\\') => {
                            *i += 1;
                            let Some(&e) = t.get(*i) else { end!() };
                            *i += 1;
                            if e != 'u' {
                                o.push(Tk::E(Error::StringSurrogateUnpaired));
                                match simple(e) {
                                    Some(v) => chars.push(v),
                                    None => {
                                        o.push(Tk::E(Error::StringEscapeInvalid(e)));
                                        chars.push(e);
                                    },
                                }
                                continue;
                            }
                            match hex4(i) {
                                Ok(w @ 0xdc00..=0xdfff) => {
                                    chars.push(char::from_u32(0x10000 + (v - 0xd800) * 0x400 + (w - 0xdc00)).unwrap());
                                },
                                Ok(_) => o.push(Tk::E(Error::StringSurrogateUnpaired)),
                                Err(false) => end!(),
                                Err(true) => o.push(Tk::E(Error::StringEscapeIncomplete)),
                            }
                        },
                        Some(_) => o.push(Tk::E(Error::StringSurrogateUnpaired)),
                    },
                    v => chars.push(char::from_u32(v).unwrap()),
                }
            },
            c => {
                if (c as u32) < 0x20 {
                    o.push(Tk::E(Error::StringCharacterInvalid(c)));
                }
                chars.push(c);
            },
        }
    }
}

const WS: &[&str] = &[" ", "\n", "\t", "\r", "  \n", "\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\u{85}", "\u{3000}", "\u{2028}"];
const WORDS: &[&str] = &["null", "true", "false", "nul", "nulll", "True", "NaN", "a", "infinity", "ä", "\u{10ffff}", "e5", "x1", ".5", "\u{0}", "\u{7f}", "'", "*", "\\", "a.b", "_", "null1", "e", "E+1", "\u{663}", "0x1f"];
const STR: &[&str] = &[
    "a", "ä", "\u{10000}", "\u{10ffff}", " ", "\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\u0041", "\\u00e4",
    "\\ud83d\\ude00", "\\uD800\\uDC00", "\\udbff\\udfff", "\\ud800", "\\udc00", "\\ud800\\ud800", "\\ud800\\u0041", "\\ud800\\n",
    "\\ud800\\x", "\\ud800\\", "\\x", "\\u", "\\u1", "\\u12", "\\u123", "\\ug", "\\ud8", "\\ud800\\u", "\\ud800\\udc", "\\ud800\\udcg",
    "\u{0}", "\u{1f}", "\u{7f}", "\u{80}", "\u{2028}", "\n", "\\\u{1}", "\\u0000", "\\uffff", "\\ud7ff", "\\ue000", "/", "'", "#", "//", "\\U0041", "\\u00E4", "\\ä",
];

/// One or two arbitrary 16-bit escapes.
fn escapes(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let v = match r.below(4) {
            0 => *r.pick(&[0u16, 1, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x2028]),
            1 => 0xd800 | r.u16() & 0x3ff,
            2 => 0xdc00 | r.u16() & 0x3ff,
            _ => r.u16(),
        };
        s.push_str(&if r.bool() { format!("\\u{v:04x}") } else { format!("\\u{v:04X}") });
    }
    s
}

pub fn gen_lexeme(r: &mut Rng, valid: bool) -> String {
    match r.below(12) {
        0 | 1 => r.pick(&[":", ",", "[", "]", "{", "}"]).to_string(),
        2 | 3 => if valid { r.pick(&WS[..5]).to_string() } else { r.pick(WS).to_string() },
        4 => if valid { r.pick(&WORDS[..3]).to_string() } else { r.pick(WORDS).to_string() },
        5 => if valid { String::from(" ") } else {
            match r.below(4) {
                0 => format!("#{}{}", r.pick(&["", "x", " \"c\"", "#", "\r"]), r.pick(&["\n", ""])),
                1 => format!("//{}{}", r.pick(&["", "x", "/", " [1]"]), r.pick(&["\n", ""])),
                2 => r.pick(&["/", "=", "+", "-", "/ ", "/a", "+1", "--1", "+-", "/\"", "/*c*/", "-+1", "==", "/-", "/#"]).to_string(),
                _ => char::from_u32(r.u32() % 0x110000).unwrap_or('\u{fffd}').to_string(),
            }
        },
        6..=8 => {
            let digits = |r: &mut Rng, min: usize| -> String {
                (0..r.range(min, 4)).map(|_| (b'0' + r.below(10) as u8) as char).collect()
            };
            let min = if valid { 1 } else { 0 };
            let mut s = String::new();
            if r.chance(1, 3) {
                s.push('-');
            } else if !valid && r.chance(1, 6) {
                s.push('+');
            }
            let d = digits(r, min);
            if valid {
                let v: u32 = d.parse().unwrap();
                s.push_str(&v.to_string());
            } else {
                s.push_str(&d);
            }
            if r.chance(1, 2) {
                s.push('.');
                s.push_str(&digits(r, min));
            }
            if r.chance(1, 2) {
                s.push(*r.pick(&['e', 'E']));
                if r.bool() {
                    s.push(*r.pick(&['+', '-']));
                }
                s.push_str(&digits(r, min));
            }
            s
        },
        _ => {
            let mut s = String::from("\"");
            for _ in 0..r.len(30) {
                if !valid && r.chance(1, 6) {
                    s.push_str(&escapes(r));
                    continue;
                }
                s.push_str(if valid { r.pick(&STR[..18]) } else { r.pick(STR) });
            }
            if valid || r.chance(7, 8) {
                s.push('"');
            }
            s
        },
    }
}

/// A text: valid, made of odd lexemes, or a random mutation.
pub fn gen_text(r: &mut Rng) -> String {
    let kind = r.below(4);
    let mut s = String::new();
    for _ in 0..r.len(40) {
        s.push_str(&gen_lexeme(r, kind == 0));
        if kind == 0 && !s.ends_with([':', ',', '[', ']', '{', '}', ' ', '"']) {
            s.push_str(r.pick(&[" ", ",", "]", "\n"]));
        }
    }
    if kind == 2 {
        let mut t: Vec<char> = s.chars().collect();
        for _ in 0..r.range(1, 4) {
            if t.is_empty() {
                break;
            }
            let k = r.below(t.len());
            match r.below(4) {
                0 => { t.remove(k); },
                1 => { let c = t[k]; t.insert(k, c); },
                2 => t.truncate(k),
                _ => t[k] = *r.pick(&['"', '\\', '/', '0', '-', 'e', '.', '\n', 'u', 'd', '\u{0}', '#', '=', '+']),
            }
        }
        s = t.into_iter().collect();
    }
    s
}

/// The alphabet of exhaustive enumerations.
pub const ALPHA: &[char] = &['"', '\\', 'u', 'd', '8', '0', 'n', 'e', '-', '.', '+', '/', '\n', ',', '=', '#', '\u{a0}', 'x', '\u{1}'];

/// Texts that end inside each kind of token, at each of its parts.
pub const PREFIXES: &[&str] = &[
    "", " ", "\t\n", ",", "nul", "null", "x", "true", "-", "+", "++", "-+", "0", "00", "-0", "+0", "7", "70", "1.", "-1.", "1.2", "0.", "0.0", "1e", "1E", "0e", "1e+", "1e-",
    "1E+2", "1e2", "1.2e", "1.2e+", "1.2e3", ".", "/", "//", "//a", "/*", "/*a", "/**", "/*a*", "/**/", "#", "#a", "=", "<", "(", "'", "\u{a0}", "\u{feff}", "\u{e4}",
    "\"", "\"a", "\"\u{e4}", "\"\u{1}", "\"\\", "\"\\n", "\"\\q", "\"\\u", "\"\\u0", "\"\\u0a", "\"\\u0aF", "\"\\u0aF9", "\"\\ud", "\"\\ud8", "\"\\uD80", "\"\\ud800", "\"\\udbFf",
    "\"\\ud800\\", "\"\\ud800\\u", "\"\\ud800\\ud", "\"\\ud800\\uD", "\"\\ud800\\udc", "\"\\ud800\\udc0", "\"\\ud800\\udf", "\"\\ud800\\udfF", "\"\\ud800\\udc00", "\"\\ud800\\u0", "\"\\ud800\\u00", "\"\\ud800\\u004",
    "\"\\ud800\\ud800", "\"\\udc", "\"\\udc0", "\"\\udc00", "\"\\ud800a", "\"\"", "\"a\"", "[", "{\"a\":", "[1,",
];
/// What may follow.
pub const SUFFIXES: &[&str] = &["", " ", "0\"", "\"", "\",1", "\n1", "*/1", "c00\"", "\\udc00\" ", "e1,", ".5 "];
/// Characters of every class, beyond all of ASCII.
pub const WIDE: &[char] = &['\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{e4}', '\u{660}', '\u{ff11}', '\u{1680}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1d7d9}', '\u{10ffff}'];

pub fn nth_text(mut n: u64, len: u32) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push(ALPHA[(n % ALPHA.len() as u64) as usize]);
        n /= ALPHA.len() as u64;
    }
    s
}

pub fn kinds(v: &[Tk]) -> Vec<u8> {
    v.iter().map(|t| match t {
        Tk::T(Token::Colon) => 0,
        Tk::T(Token::Comma) => 1,
        Tk::T(Token::ArrayOpen) => 2,
        Tk::T(Token::ArrayClose) => 3,
        Tk::T(Token::ObjectOpen) => 4,
        Tk::T(Token::ObjectClose) => 5,
        Tk::T(Token::Null) => 6,
        Tk::T(Token::False) => 7,
        Tk::T(Token::True) => 8,
        Tk::T(Token::Whitespace { .. }) => 9,
        Tk::T(Token::Number { .. }) => 10,
        Tk::T(Token::String { .. }) => 11,
        Tk::E(Error::CharacterStray(_)) => 20,
        Tk::E(Error::KeywordUnknown(_)) => 21,
        Tk::E(Error::NumberIncomplete) => 22,
        Tk::E(Error::StringIncomplete) => 23,
        Tk::E(Error::StringCharacterInvalid(_)) => 24,
        Tk::E(Error::StringEscapeInvalid(_)) => 25,
        Tk::E(Error::StringEscapeIncomplete) => 26,
        Tk::E(Error::StringSurrogateUnpaired) => 27,
        Tk::E(Error::Comment(_)) => 28,
    }).collect()
}
