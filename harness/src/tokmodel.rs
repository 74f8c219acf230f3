//! Reference model of the streaming JSON tokenizer, a reader whose data
//! arrives bit by bit, and generators of JSON text.

use crate::{show, Rng};
use std::cell::Cell;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::fmt::json::token::{Dec, Error, Sign, Token};
use tmp::io::stream::{More, Read};

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Tk {
    Err(Er),
    White(Vec<u8>),
    /// Structural character
    Mark(u8),
    Null,
    False,
    True,
    Num { raw: Vec<u8>, minus: bool, integer: String, fraction: Option<String>, exponent: Option<(bool, String)> },
    Str { raw: Vec<u8>, text: String },
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Er {
    ItemNonUtf8(Vec<u8>),
    ItemUnknown(Vec<u8>),
    LeadingPlus,
    MultipleSigns,
    RangeEmpty,
    StrIncomplete,
    StrNonUtf8 { raw: Vec<u8>, text: Vec<u8> },
    Unescaped(u8),
    EscapeUnknown(u8),
    EscapeInvalid,
    Lead(u32),
    Trail(u32),
    Other(String),
}

/// A token, and how much of the data must have arrived for it to be known. A
/// token that needs more than there is comes at the end of the stream.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub tk: Tk, pub need: usize }

fn hex(v: &[u8]) -> Option<u32> {
    (v.len() == 4 && v.iter().all(|v| v.is_ascii_hexdigit())).then(|| u32::from_str_radix(std::str::from_utf8(v).unwrap(), 16).unwrap())
}

fn item_tail(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'+' | b'-' | b'.') }

fn text(d: &[u8]) -> String { String::from_utf8(d.to_vec()).unwrap() }

/// Everything the tokenizer reports for this data.
pub fn model(d: &[u8]) -> Vec<Ev> {
    let mut out = vec![];
    let mut i = 0;
    while i < d.len() {
        let from = i;
        match d[i] {
            b' ' | b'\t' | b'\r' | b'\n' => {
                while i < d.len() && matches!(d[i], b' ' | b'\t' | b'\r' | b'\n') {
                    i += 1;
                }
                out.push(Ev { tk: Tk::White(d[from..i].to_vec()), need: i + 1 });
            },
            c @ (b':' | b',' | b'[' | b']' | b'{' | b'}') => {
                i += 1;
                out.push(Ev { tk: Tk::Mark(c), need: i });
            },
            b'"' => i = string(d, from, &mut out),
            b'+' | b'-' | b'0'..=b'9' => i = number(d, from, &mut out),
            _ => {
                i += 1;
                while i < d.len() && item_tail(d[i]) {
                    i += 1;
                }
                let raw = d[from..i].to_vec();
                let tk = match &raw[..] {
                    b"null" => Tk::Null,
                    b"false" => Tk::False,
                    b"true" => Tk::True,
                    v if std::str::from_utf8(v).is_ok() => Tk::Err(Er::ItemUnknown(raw)),
                    _ => Tk::Err(Er::ItemNonUtf8(raw)),
                };
                out.push(Ev { tk, need: i + 1 });
            },
        }
    }
    out
}

fn number(d: &[u8], from: usize, out: &mut Vec<Ev>) -> usize {
    #[derive(PartialEq)]
    enum At { Int, Frac, Exp }
    let mut i = from;
    let mut minus = false;
    let mut at = At::Int;
    let mut parts: [Option<(usize, usize)>; 3] = [Some((from, from)), None, None];
    let mut exp: Option<bool> = None;
    if matches!(d[i], b'+' | b'-') {
        minus = d[i] == b'-';
        if !minus {
            out.push(Ev { tk: Tk::Err(Er::LeadingPlus), need: i + 1 });
        }
        i += 1;
        parts[0] = Some((i, i));
    }
    loop {
        while i < d.len() && d[i].is_ascii_digit() {
            i += 1;
        }
        let k = match at { At::Int => 0, At::Frac => 1, At::Exp => 2 };
        let part = parts[k].as_mut().unwrap();
        part.1 = i;
        let empty = part.0 == part.1;
        if i >= d.len() {
            break;
        }
        match d[i] {
            c @ (b'+' | b'-') if empty && at == At::Int => {
                // Only the second one of a sequence is reported.
                if i == from + 1 {
                    out.push(Ev { tk: Tk::Err(Er::MultipleSigns), need: i + 1 });
                }
                minus = c == b'-';
                i += 1;
                parts[0] = Some((i, i));
            },
            c @ (b'+' | b'-') if empty && at == At::Exp => {
                if exp.is_some() {
                    out.push(Ev { tk: Tk::Err(Er::MultipleSigns), need: i + 1 });
                }
                exp = Some(c == b'-');
                i += 1;
                parts[2] = Some((i, i));
            },
            b'.' if at == At::Int => {
                i += 1;
                at = At::Frac;
                parts[1] = Some((i, i));
            },
            b'e' | b'E' if at != At::Exp => {
                i += 1;
                at = At::Exp;
                parts[2] = Some((i, i));
            },
            _ => break,
        }
    }
    if parts.iter().flatten().any(|v| v.0 == v.1) {
        out.push(Ev { tk: Tk::Err(Er::RangeEmpty), need: i + 1 });
    }
    let get = |v: (usize, usize)| text(&d[v.0..v.1]);
    out.push(Ev {
        tk: Tk::Num {
            raw: d[from..i].to_vec(),
            minus,
            integer: get(parts[0].unwrap()),
            fraction: parts[1].map(get),
            exponent: parts[2].map(|v| (exp.unwrap_or(false), get(v))),
        },
        need: i + 1,
    });
    i
}

fn string(d: &[u8], from: usize, out: &mut Vec<Ev>) -> usize {
    let end = d.len();
    let mut i = from + 1;
    let mut s: Vec<u8> = vec![];
    let lost = "\u{fffd}".as_bytes();
    macro_rules! incomplete { () => {{
        out.push(Ev { tk: Tk::Err(Er::StrIncomplete), need: end + 1 });
        return end;
    }}; }
    macro_rules! error { ($e:expr, $need:expr) => { out.push(Ev { tk: Tk::Err($e), need: $need }) }; }
    loop {
        if i >= end {
            incomplete!();
        }
        match d[i] {
            b'"' => {
                i += 1;
                let raw = d[from..i].to_vec();
                let tk = match String::from_utf8(s) {
                    Ok(text) => Tk::Str { raw, text },
                    Err(e) => Tk::Err(Er::StrNonUtf8 { raw, text: e.into_bytes() }),
                };
                out.push(Ev { tk, need: i });
                return i;
            },
            b'\\' => {
                if i + 1 >= end {
                    incomplete!();
                }
                match d[i + 1] {
                    b'b' => s.push(8),
                    b'f' => s.push(12),
                    b'n' => s.push(10),
                    b'r' => s.push(13),
                    b't' => s.push(9),
                    c @ (b'"' | b'\\' | b'/') => s.push(c),
                    b'u' => {
                        let n = d[i + 2..].iter().take(4).take_while(|v| v.is_ascii_hexdigit()).count();
                        if n < 4 {
                            if i + 2 + n >= end {
                                incomplete!();
                            }
                            error!(Er::EscapeInvalid, i + 2 + n + 1);
                            s.extend_from_slice(lost);
                            i += 2 + n;
                            continue;
                        }
                        let code = hex(&d[i + 2..i + 6]).unwrap();
                        i += 6;
                        match code {
                            0xd800..=0xdbff => {
                                let rest = &d[i..];
                                let ok = |k: usize, v: u8| match k { 0 => v == b'\\', 1 => v == b'u', _ => v.is_ascii_hexdigit() };
                                let n = rest.iter().take(6).enumerate().take_while(|(k, v)| ok(*k, **v)).count();
                                if n < 6 && i + n >= end {
                                    incomplete!();
                                }
                                let trail = if n == 6 { hex(&rest[2..6]) } else { None };
                                if let Some(t @ 0xdc00..=0xdfff) = trail {
                                    let c = char::from_u32(0x10000 + ((code & 0x3ff) << 10) + (t & 0x3ff)).unwrap();
                                    s.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                                    i += 6;
                                } else {
                                    error!(Er::Lead(code), i + (n + 1).min(6));
                                    s.extend_from_slice(lost);
                                }
                            },
                            0xdc00..=0xdfff => {
                                error!(Er::Trail(code), i);
                                s.extend_from_slice(lost);
                            },
                            c => s.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut [0; 4]).as_bytes()),
                        }
                        continue;
                    },
                    c => {
                        error!(Er::EscapeUnknown(c), i + 2);
                        s.push(c);
                    },
                }
                i += 2;
            },
            c => {
                i += 1;
                if c < 0x20 {
                    error!(Er::Unescaped(c), i);
                }
                s.push(c);
            },
        }
    }
}

/// Convert a token of the real code; also checks what is stored redundantly.
pub fn convert(t: Token<'_>) -> Result<Tk, String> {
    Ok(match t {
        Token::Error(e) => Tk::Err(match e {
            Error::ItemNonUtf8 { raw, error } => {
                if std::str::from_utf8(raw) != Err(error) {
                    return Err(format!("wrong encoding error {error:?} for {}", show(raw)));
                }
                Er::ItemNonUtf8(raw.to_vec())
            },
            Error::ItemUnknown { raw, str } => {
                if raw != str.as_bytes() {
                    return Err(format!("item text {str:?} for {}", show(raw)));
                }
                Er::ItemUnknown(raw.to_vec())
            },
            Error::NumberLeadingPlus => Er::LeadingPlus,
            Error::NumberMultipleSigns => Er::MultipleSigns,
            Error::NumberRangeEmpty => Er::RangeEmpty,
            Error::StringIncomplete => Er::StrIncomplete,
            Error::StringNonUtf8 { raw, str, error } => {
                if std::str::from_utf8(str) != Err(error) {
                    return Err(format!("wrong encoding error {error:?} for {}", show(str)));
                }
                Er::StrNonUtf8 { raw: raw.to_vec(), text: str.to_vec() }
            },
            Error::StringUnescaped { code } => Er::Unescaped(code),
            Error::StringEscapeUnknown { code } => Er::EscapeUnknown(code),
            Error::StringEscapeInvalid => Er::EscapeInvalid,
            Error::StringEscapeUnpairedLeadSurrogate { lead } => Er::Lead(lead),
            Error::StringEscapeUnpairedTrailSurrogate { trail } => Er::Trail(trail),
            e => Er::Other(format!("{e:?}")),
        }),
        Token::Whitespace { raw, str } => {
            if raw != str.as_bytes() {
                return Err(format!("whitespace text {str:?} for {}", show(raw)));
            }
            Tk::White(raw.to_vec())
        },
        Token::Colon => Tk::Mark(b':'),
        Token::Comma => Tk::Mark(b','),
        Token::ArrayOpen => Tk::Mark(b'['),
        Token::ArrayClose => Tk::Mark(b']'),
        Token::ObjectOpen => Tk::Mark(b'{'),
        Token::ObjectClose => Tk::Mark(b'}'),
        Token::Null => Tk::Null,
        Token::False => Tk::False,
        Token::True => Tk::True,
        Token::Number(n) => Tk::Num {
            raw: n.raw.to_vec(),
            minus: n.sign == Sign::Minus,
            integer: n.integer.into(),
            fraction: n.fraction.map(|v| v.into()),
            exponent: n.exponent.map(|v| (v.0 == Sign::Minus, v.1.into())),
        },
        Token::String { raw, str } => Tk::Str { raw: raw.to_vec(), text: str.into() },
    })
}

/// Texts that end inside each kind of token, at each of its parts.
pub const PREFIXES: &[&[u8]] = &[
    b"", b" ", b"\n\t", b",", b"nul", b"null", b"x", b".", b"e", b"\xc3", b"-", b"+", b"++", b"-+", b"+-", b"--", b"-+-", b"0", b"00", b"-0", b"+0", b"7", b"70", b"1.", b"-1.", b"1.2", b"-.", b"-.5", b"1e", b"1E", b"-e", b"1e+", b"1e-", b"1e++", b"1e+-",
    b"1E+2", b"1e2", b"1.2e", b"1.e", b"1.2e+", b"1.2e3", b"1.2.", b"1e2e", b"1e2.",
    b"\"", b"\"a", b"\"\xc3", b"\"\xc3\xa4", b"\"\x01", b"\"\\", b"\"\\n", b"\"\\q", b"\"\\u", b"\"\\u0", b"\"\\u0a", b"\"\\u0aF", b"\"\\u0aF9", b"\"\\ud", b"\"\\ud8", b"\"\\uD80", b"\"\\ud800", b"\"\\udbFf",
    b"\"\\ud800\\", b"\"\\ud800\\u", b"\"\\ud800\\ud", b"\"\\ud800\\uD", b"\"\\ud800\\udc", b"\"\\ud800\\udc0", b"\"\\ud800\\udf", b"\"\\ud800\\udfF", b"\"\\ud800\\udc00", b"\"\\ud800\\u0", b"\"\\ud800\\u00", b"\"\\ud800\\u004",
    b"\"\\ud800\\ud800", b"\"\\ud800\\ud80", b"\"\\udc", b"\"\\udc0", b"\"\\udc00", b"\"\\ud800a", b"\"a\\", b"\"a\\nb", b"\"\"", b"\"a\"", b"[", b"{\"a\":", b"[1,",
];
/// What may follow.
pub const SUFFIXES: &[&[u8]] = &[b"", b" ", b"0\"", b"\"", b"\",1", b"\n1", b"c00\"", b"\\udc00\" ", b"e1,", b".5 ", b"\xa4\" "];

/// How much of the data has arrived and how much has been consumed.
#[derive(Clone, Default)]
pub struct Gauge(Rc<(Cell<usize>, Cell<usize>, Cell<bool>)>);
impl Gauge {
    pub fn arrived(&self) -> usize { self.0.0.get() }
    pub fn arrive(&self, to: usize) { self.0.0.set(to) }
    pub fn consumed(&self) -> usize { self.0.1.get() }
    /// Consumed more than had arrived.
    pub fn overrun(&self) -> bool { self.0.2.get() }
}

/// A stream over data that arrives over time. Maps at least what is asked for,
/// and possibly less than there is.
pub struct Src<'a> { data: &'a [u8], gauge: Gauge, tight: bool }
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], tight: bool) -> (Src<'a>, Gauge) {
        let gauge = Gauge::default();
        (Src { data, gauge: gauge.clone(), tight }, gauge)
    }
}
impl Read for Src<'_> {
    fn advance(&mut self, len: usize) {
        let to = self.gauge.consumed() + len;
        if to > self.gauge.arrived() {
            self.gauge.0.2.set(true);
        }
        self.gauge.0.1.set(to.min(self.data.len()));
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        let (from, to) = (self.gauge.consumed(), self.gauge.arrived());
        if to.saturating_sub(from) < min {
            return Flow::Break(More { min, max });
        }
        Flow::Continue(&self.data[from..if self.tight { from + min } else { to }])
    }
}

/// Run the tokenizer with the data arriving up to each position in turn, and
/// compare everything with what is expected.
pub fn drive(d: &[u8], want: &[Ev], stops: &[usize], tight: bool) -> Result<(), String> {
    let (mut src, gauge) = Src::new(d, tight);
    let mut dec = Dec::with(&mut src);
    let mut k = 0;
    for &stop in stops {
        gauge.arrive(stop);
        loop {
            match dec.pop() {
                Flow::Continue(t) => {
                    let t = convert(t)?;
                    match want.get(k) {
                        None => return Err(format!("after {stop} of {} bytes, unexpected {t:?}", d.len())),
                        Some(w) if w.tk != t => return Err(format!("token {k} after {stop} bytes\n  observed: {t:?}\n  expected: {:?}", w.tk)),
                        Some(w) if w.need > stop => return Err(format!("token {k}, {t:?}, after only {stop} of {} bytes, its end is known after {}", d.len(), w.need)),
                        _ => k += 1,
                    }
                },
                Flow::Break(more) => {
                    let have = stop - gauge.consumed();
                    if more.min <= have {
                        return Err(format!("with {have} bytes buffered, only asks for {more:?}"));
                    }
                    if more.max.is_some_and(|v| v < more.min) {
                        return Err(format!("contradicting request for data {more:?}"));
                    }
                    if let Some(w) = want.get(k) {
                        if w.need <= stop {
                            return Err(format!("{:?} not reported after {stop} bytes, its end is known after {}", w.tk, w.need));
                        }
                        if gauge.consumed() + more.min > w.need {
                            return Err(format!("asks for {} bytes in total before reporting {:?}, its end is known after {}", gauge.consumed() + more.min, w.tk, w.need));
                        }
                    }
                    break;
                },
            }
        }
        if gauge.overrun() {
            return Err("consumed more than was available".into());
        }
    }
    // The end of the stream.
    loop {
        let t = match dec.complete() {
            None => None,
            Some(t) => Some(convert(t)?),
        };
        match (t, want.get(k)) {
            (None, None) => break,
            (Some(t), Some(w)) if t == w.tk => k += 1,
            (t, w) => return Err(format!("token {k} on completion\n  observed: {t:?}\n  expected: {:?}", w.map(|w| &w.tk))),
        }
    }
    match dec.complete() {
        None => (),
        Some(t) => return Err(format!("after the end, {t:?}")),
    }
    match dec.pop() {
        Flow::Break(_) => (),
        Flow::Continue(t) => return Err(format!("after the end, popped {t:?}")),
    }
    drop(dec);
    if gauge.overrun() {
        return Err("consumed more than was available".into());
    }
    if gauge.consumed() != d.len() {
        return Err(format!("consumed {} of {} bytes", gauge.consumed(), d.len()));
    }
    Ok(())
}

/// Completing while there is data left that no token covers reports it.
pub fn early(d: &[u8], want: &[Ev], tight: bool) -> Result<usize, String> {
    let mut at = 0;
    let mut n = 0;
    // Positions between tokens: the start, and behind each structural character.
    for k in 0..=want.len() {
        if k > 0 {
            at += match &want[k - 1].tk { Tk::Err(_) => break, t => raw(t).len() };
            if !matches!(want[k - 1].tk, Tk::Mark(_)) {
                continue;
            }
        }
        for arrived in [at, at + 1, at + 2, d.len()] {
            if arrived > d.len() {
                continue;
            }
            let (mut src, gauge) = Src::new(d, tight);
            let mut dec = Dec::with(&mut src);
            gauge.arrive(arrived);
            for w in &want[..k] {
                match dec.pop() {
                    Flow::Continue(t) => if convert(t)? != w.tk { return Err(format!("expected {:?}", w.tk)) },
                    Flow::Break(m) => return Err(format!("{:?} not reported, {m:?}", w.tk)),
                }
            }
            let left = arrived - at;
            for _ in 0..2 {
                match (dec.complete(), left) {
                    (None, 0) => (),
                    (Some(Token::Error(Error::BufferRemaining)), 1..) => (),
                    (t, _) => return Err(format!("completion with {left} unread bytes after {k} tokens gives {t:?}")),
                }
            }
            n += 1;
        }
    }
    Ok(n)
}

/// Ways for `n` bytes to arrive; always ends with all of them.
pub fn stops(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = match r.below(5) {
        0 => vec![],
        1 => (0..n).collect(),
        2 => vec![r.below(n + 1)],
        _ => {
            let (mut v, mut i) = (vec![], 0);
            let step = *r.pick(&[2, 4, 8, 30]);
            while i < n {
                v.push(i);
                i += r.range(1, step);
            }
            v
        },
    };
    v.push(n);
    // Asking again without more data makes no difference.
    if r.chance(1, 4) {
        v.push(n);
    }
    v
}

/// Valid JSON lexemes with what they mean.
pub fn gen_white(r: &mut Rng, min: usize) -> Option<Tk> {
    let n = if r.chance(1, 3) { r.range(min, 4) } else { min };
    let n = if !cfg!(miri) && r.chance(1, 60) { *r.pick(&[7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]) } else { n };
    (n > 0).then(|| Tk::White((0..n).map(|_| *r.pick(b" \t\r\n")).collect()))
}

fn digits(r: &mut Rng, lead: bool) -> String {
    let n = match r.below(6) { 0..=3 => r.range(1, 3), 4 => r.range(1, 12), _ => r.range(1, 40) };
    let n = if !cfg!(miri) && r.chance(1, 80) { *r.pick(&[63, 64, 65, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257]) } else { n };
    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    if !lead && s.len() > 1 && s.starts_with('0') {
        s.replace_range(0..1, "7");
    }
    s
}

pub fn gen_number(r: &mut Rng) -> Tk {
    let minus = r.bool();
    let integer = if r.chance(1, 5) { "0".to_string() } else { digits(r, false) };
    let fraction = r.chance(1, 3).then(|| digits(r, true));
    let exponent = r.chance(1, 3).then(|| (r.below(3), digits(r, true), r.bool()));
    let mut raw = String::new();
    if minus {
        raw.push('-');
    }
    raw += &integer;
    if let Some(v) = &fraction {
        raw.push('.');
        raw += v;
    }
    if let Some((s, v, u)) = &exponent {
        raw.push(if *u { 'e' } else { 'E' });
        raw += ["", "+", "-"][*s];
        raw += v;
    }
    Tk::Num { raw: raw.into_bytes(), minus, integer, fraction, exponent: exponent.map(|v| (v.0 == 2, v.1)) }
}

pub fn hex4(r: &mut Rng, code: u32) -> String {
    format!("{code:04x}").chars().map(|v| if r.bool() { v.to_ascii_uppercase() } else { v }).collect()
}

pub fn gen_string(r: &mut Rng) -> Tk {
    let n = match r.below(6) { 0 => 0, 1..=4 => r.below(8), _ => r.below(40) };
    let (mut raw, mut text) = (vec![b'"'], String::new());
    let escapes = r.chance(2, 3);
    for _ in 0..n {
        let c = match r.below(8) {
            0 => '"',
            1 => '\\',
            2 => *r.pick(&['/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1f}', '\u{7f}', ' ']),
            3 => char::from_u32(r.range(0x80, 0xd7ff) as u32).unwrap(),
            4 => char::from_u32(r.range(0xe000, 0x10ffff) as u32).unwrap(),
            5 => *r.pick(&['\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}', '\u{80}', '\u{fffe}', '\u{1ffff}']),
            _ => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
        };
        if !escapes && (matches!(c, '"' | '\\') || c < ' ') {
            continue;
        }
        text.push(c);
        let short = match c { '"' => b'"', '\\' => b'\\', '/' => b'/', '\u{8}' => b'b', '\u{c}' => b'f', '\n' => b'n', '\r' => b'r', '\t' => b't', _ => 0 };
        let must = matches!(c, '"' | '\\') || c < ' ';
        if short != 0 && escapes && (must || r.bool()) && r.chance(3, 4) {
            raw.extend([b'\\', short]);
        } else if must || (escapes && r.chance(1, 3)) {
            for u in c.encode_utf16(&mut [0; 2]) {
                raw.extend(format!("\\u{}", hex4(r, *u as u32)).bytes());
            }
        } else {
            raw.extend(c.encode_utf8(&mut [0; 4]).bytes());
        }
    }
    raw.push(b'"');
    Tk::Str { raw, text }
}

pub fn raw(t: &Tk) -> Vec<u8> {
    match t {
        Tk::White(v) => v.clone(),
        Tk::Mark(c) => vec![*c],
        Tk::Null => b"null".to_vec(),
        Tk::False => b"false".to_vec(),
        Tk::True => b"true".to_vec(),
        Tk::Num { raw, .. } | Tk::Str { raw, .. } => raw.clone(),
        Tk::Err(_) => vec![],
    }
}

pub fn gen_scalar(r: &mut Rng) -> Tk {
    match r.below(8) {
        0 => Tk::Null,
        1 => Tk::False,
        2 => Tk::True,
        3 | 4 => gen_number(r),
        _ => gen_string(r),
    }
}

/// The lexemes of a random JSON value, including whitespace.
pub fn gen_doc(r: &mut Rng, budget: &mut usize, depth: usize, out: &mut Vec<Tk>) {
    *budget = budget.saturating_sub(1);
    if *budget == 0 || depth == 0 || r.chance(1, 3) {
        out.push(gen_scalar(r));
        return;
    }
    let object = r.bool();
    out.push(Tk::Mark(if object { b'{' } else { b'[' }));
    out.extend(gen_white(r, 0));
    let n = match r.below(4) { 0 => 0, 1 => 1, _ => r.below(6) };
    for k in 0..n {
        if k > 0 {
            out.push(Tk::Mark(b','));
            out.extend(gen_white(r, 0));
        }
        if object {
            out.push(gen_string(r));
            out.extend(gen_white(r, 0));
            out.push(Tk::Mark(b':'));
            out.extend(gen_white(r, 0));
        }
        gen_doc(r, budget, depth - 1, out);
        out.extend(gen_white(r, 0));
    }
    out.push(Tk::Mark(if object { b'}' } else { b']' }));
}

/// The text of lexemes, and when each is known.
pub fn lay(list: &[Tk]) -> (Vec<u8>, Vec<Ev>) {
    let (mut d, mut evs) = (vec![], vec![]);
    for t in list {
        d.extend(raw(t));
        let more = !matches!(t, Tk::Mark(_) | Tk::Str { .. });
        evs.push(Ev { tk: t.clone(), need: d.len() + more as usize });
    }
    (d, evs)
}

/// A hint of the kind of token, for counting distinct behaviour.
/// Texts of many thousand bytes: long tokens of every kind, and ordinary text
/// and damaged strings behind or inside of long ones.
pub fn gen_long(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[200usize, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 70_000]) + r.below(3);
    let digits = |r: &mut Rng, n: usize| -> Vec<u8> { let d = *r.pick(b"0179"); (0..n).map(|_| if r.chance(1, 9) { b'0' + r.below(10) as u8 } else { d }).collect() };
    let mut d: Vec<u8> = match r.below(10) {
        0 => r.pick(&[&b" "[..], b"\n", b" \t\r\n"]).repeat(n),
        1 => [b"1".to_vec(), digits(r, n)].concat(),
        2 => [b"-0.".to_vec(), digits(r, n)].concat(),
        3 => [b"1e".to_vec(), r.pick(&[&b"+"[..], b"-", b""]).to_vec(), digits(r, n)].concat(),
        4 => [b"9".to_vec(), digits(r, n), b".".to_vec(), digits(r, n), b"E-".to_vec(), digits(r, n)].concat(),
        5 => r.pick(&[&b"x"[..], b"null", b"a.b", b"true"]).repeat(n / 2),
        6 => r.pick(&[&b"+"[..], b"-", b"1,", b"[]", b"\"\",", b"null,"]).repeat(n / 3),
        _ => {
            // A string with a long part, and pieces of all kinds around it.
            const BITS: &[&[u8]] = &[b"a", b"\\n", b"\\/", b"\\\"", b"\\\\", b"\\b", b"\\f", b"\\r", b"\\t", b"\\u0041", b"\\u20ac", b"\\ud83d\\ude00", "\u{e9}".as_bytes(), "\u{1f600}".as_bytes(), b"/"];
            const BAD: &[&[u8]] = &[b"\\q", b"\\u12", b"\x1f", b"\\ud800", b"\\udc00", b"\xff", b"\\ud800\\ud800", b"\x00"];
            let bad = r.chance(1, 3);
            let mut v = vec![b'"'];
            let bits = |r: &mut Rng, v: &mut Vec<u8>| for _ in 0..r.below(6) {
                v.extend(if bad && r.chance(1, 3) { *r.pick(BAD) } else { *r.pick(BITS) });
            };
            bits(r, &mut v);
            let u = if r.bool() { &b"y"[..] } else { *r.pick(BITS) };
            v.extend(u.repeat(n / u.len()));
            bits(r, &mut v);
            if !r.chance(1, 6) {
                v.push(b'"');
            }
            v
        },
    };
    // What follows is not affected.
    if r.chance(3, 4) {
        d.push(b',');
        let mut list = vec![];
        let mut b = r.range(1, 8);
        gen_doc(r, &mut b, 4, &mut list);
        d.extend(lay(&list).0);
    }
    if r.chance(1, 3) {
        let v = d.clone();
        d.push(*r.pick(b",:]} "));
        d.extend(v);
    }
    d
}

/// Arrival of a long text: at once, in steps, or around some position.
pub fn long_stops(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut at: Vec<usize> = match r.below(3) {
        0 => vec![],
        1 => { let step = r.range(500, 9000); (0..n).step_by(step).collect() },
        _ => { let k = r.below(n); (k.saturating_sub(8)..(k + 8).min(n)).collect() },
    };
    at.push(n);
    at
}

pub fn kind(t: &Tk) -> u8 {
    match t {
        Tk::White(_) => b' ',
        Tk::Mark(c) => *c,
        Tk::Null => b'n',
        Tk::False => b'f',
        Tk::True => b't',
        Tk::Num { .. } => b'0',
        Tk::Str { .. } => b'"',
        Tk::Err(e) => match e {
            Er::ItemNonUtf8(_) => b'A',
            Er::ItemUnknown(_) => b'B',
            Er::LeadingPlus => b'C',
            Er::MultipleSigns => b'D',
            Er::RangeEmpty => b'E',
            Er::StrIncomplete => b'F',
            Er::StrNonUtf8 { .. } => b'G',
            Er::Unescaped(_) => b'H',
            Er::EscapeUnknown(_) => b'I',
            Er::EscapeInvalid => b'J',
            Er::Lead(_) => b'K',
            Er::Trail(_) => b'L',
            Er::Other(_) => b'?',
        },
    }
}
