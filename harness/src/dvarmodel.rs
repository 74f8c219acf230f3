//! Reference model of D-Bus marshalling, and sinks and sources to drive the
//! real code with.

use crate::{sigmodel, Rng};
use std::cell::Cell;
use std::mem::MaybeUninit as Un;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use std::sync::Arc;
use tmp::fmt::dbus::Sig;
use tmp::io::map;

/// A value of the types the encoder supports.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Q(u16),
    U(u32),
    T(u64),
    S(String),
    O(String),
    G(String),
    Var(Vec<u8>, Arc<Sig>, Box<V>),
    Arr(Vec<V>),
    Str(Vec<V>),
    Dict(Box<V>, Box<V>),
}

pub fn text(r: &mut Rng, max: usize) -> String {
    if !cfg!(miri) && max >= 40 && r.chance(1, 40) {
        // Sizes at which fixed buffers end.
        let n = *r.pick(&[31usize, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300]);
        let n = if max == 40 { n } else { n.min(max) };
        return r.pick(&["a", "\0", "/"]).repeat(n);
    }
    let n = match r.below(8) { 0 => 0, 1..=5 => r.below(9), _ => r.below(max + 1) };
    let mut s = String::new();
    let set: &[char] = if r.bool() { &['a', '/', '\0', '\u{e4}', '\u{20ac}', '\u{1f600}', 'Z'] } else {
        &['a', '/', '_', '0', '9', '-', '.', ':', ' ', '\n', '"', '\\', '=', '\u{7f}', '\u{80}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '\u{2028}']
    };
    while s.len() < n {
        s.push(*r.pick(set));
    }
    while s.len() > max {
        s.pop();
    }
    s
}

/// A random signature of supported types with about `n` elements; iterative
/// structure follows `sigmodel`, restricted to supported codes.
pub fn gen_sig(r: &mut Rng, n: usize) -> Vec<u8> {
    fn key(r: &mut Rng) -> u8 { *r.pick(b"qutsog") }
    fn go(r: &mut Rng, n: usize, out: &mut Vec<u8>) {
        if n <= 1 {
            out.push(*r.pick(b"qutsogvvs"));
            return;
        }
        match r.below(6) {
            0 | 1 => { out.push(b'a'); go(r, n - 1, out) },
            2 if n >= 4 => { out.push(b'{'); out.push(key(r)); go(r, n - 3, out); out.push(b'}') },
            _ => {
                out.push(b'(');
                let mut left = n.saturating_sub(2);
                while left > 0 {
                    let k = r.range(1, left);
                    go(r, k, out);
                    left -= k;
                }
                out.push(b')');
            },
        }
    }
    let mut out = vec![];
    go(r, n, &mut out);
    out
}

/// A value for the type at the start of `s`; returns the length of the type.
pub fn gen_value(r: &mut Rng, s: &[u8], budget: &mut usize, depth: usize) -> (V, usize) {
    *budget = budget.saturating_sub(1);
    match s[0] {
        b'q' => (V::Q(r.edge64() as u16), 1),
        b'u' => (V::U(r.edge64() as u32), 1),
        b't' => (V::T(r.edge64()), 1),
        b's' => (V::S(text(r, 40)), 1),
        b'o' => (V::O(text(r, 40)), 1),
        b'g' => (V::G(text(r, 255)), 1),
        b'v' => {
            let n = if depth > 3 || *budget == 0 { 1 } else { match r.below(12) { 0 => r.range(30, 40), 1 => r.range(1, 12), _ => r.range(1, 5) } };
            let mut g = gen_sig(r, n);
            if depth > 3 {
                g = vec![*r.pick(b"quts")];
            }
            let (v, l) = gen_value(r, &g, budget, depth + 1);
            assert!(l == g.len());
            let sig = Sig::arc(&g).expect("model signature");
            (V::Var(g, sig, Box::new(v)), 1)
        },
        b'a' => {
            let n = if *budget == 0 { 0 } else { match r.below(4) { 0 => 0, 1 => 1, _ => r.below(5) } };
            let mut v = vec![];
            for _ in 0..n {
                v.push(gen_value(r, &s[1..], budget, depth).0);
            }
            let l = type_len(&s[1..]);
            (V::Arr(v), 1 + l)
        },
        b'(' => {
            let (mut v, mut i) = (vec![], 1);
            while s[i] != b')' {
                let (x, l) = gen_value(r, &s[i..], budget, depth);
                v.push(x);
                i += l;
            }
            (V::Str(v), i + 1)
        },
        b'{' => {
            let (k, kl) = gen_value(r, &s[1..], budget, depth);
            let (x, xl) = gen_value(r, &s[1 + kl..], budget, depth);
            (V::Dict(Box::new(k), Box::new(x)), kl + xl + 2)
        },
        c => panic!("unsupported code {c}"),
    }
}

pub fn type_len(s: &[u8]) -> usize {
    match s[0] {
        b'a' => 1 + type_len(&s[1..]),
        b'(' | b'{' => {
            let mut i = 1;
            while s[i] != b')' && s[i] != b'}' {
                i += type_len(&s[i..]);
            }
            i + 1
        },
        _ => 1,
    }
}

fn alignment(c: u8) -> usize { 1 << sigmodel::TABLE.iter().find(|v| v.0 == c).unwrap().1 }

fn pad(out: &mut Vec<u8>, n: usize) {
    while out.len() % n != 0 {
        out.push(0);
    }
}

macro_rules! num {
    ($out:expr, $be:expr, $v:expr) => {
        if $be { $out.extend_from_slice(&$v.to_be_bytes()) } else { $out.extend_from_slice(&$v.to_le_bytes()) }
    };
}

/// Append the marshalled value; alignment is relative to the start of `out`.
pub fn marshal(out: &mut Vec<u8>, be: bool, s: &[u8], v: &V) {
    match v {
        V::Q(x) => { pad(out, 2); num!(out, be, x) },
        V::U(x) => { pad(out, 4); num!(out, be, x) },
        V::T(x) => { pad(out, 8); num!(out, be, x) },
        V::S(x) | V::O(x) => {
            pad(out, 4);
            num!(out, be, (x.len() as u32));
            out.extend_from_slice(x.as_bytes());
            out.push(0);
        },
        V::G(x) => {
            out.push(x.len() as u8);
            out.extend_from_slice(x.as_bytes());
            out.push(0);
        },
        V::Var(g, _, x) => {
            out.push(g.len() as u8);
            out.extend_from_slice(g);
            out.push(0);
            marshal(out, be, g, x);
        },
        V::Arr(xs) => {
            pad(out, 4);
            let at = out.len();
            out.extend_from_slice(&[0; 4]);
            pad(out, alignment(s[1]));
            let from = out.len();
            for x in xs {
                marshal(out, be, &s[1..], x);
            }
            let n = (out.len() - from) as u32;
            out[at..at + 4].copy_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
        },
        V::Str(xs) => {
            pad(out, 8);
            let mut i = 1;
            for x in xs {
                marshal(out, be, &s[i..], x);
                i += type_len(&s[i..]);
            }
        },
        V::Dict(k, x) => {
            pad(out, 8);
            marshal(out, be, &s[1..], k);
            marshal(out, be, &s[1 + type_len(&s[1..])..], x);
        },
    }
}

/// What a sink has seen; shared with the monitor.
#[derive(Clone, Default)]
pub struct Log(Rc<LogInner>);
#[derive(Default)]
struct LogInner { maps: Cell<usize>, commits: Cell<usize>, committed: Cell<usize>, fault: Cell<Option<(usize, Option<map::Error>)>>, hits: Cell<usize> }
impl Log {
    pub fn maps(&self) -> usize { self.0.maps.get() }
    pub fn commits(&self) -> usize { self.0.commits.get() }
    pub fn committed(&self) -> usize { self.0.committed.get() }
    /// Number of injected failures so far.
    pub fn hits(&self) -> usize { self.0.hits.get() }
    /// Fail the map request `n` from now, with this error.
    pub fn arm(&self, n: usize, e: Option<map::Error>) { self.0.fault.set(Some((self.maps() + n, e))) }
    pub fn disarm(&self) { self.0.fault.set(None) }
    /// Count a map request; tells whether it has to fail.
    fn tick(&self) -> Option<Option<map::Error>> {
        let k = self.0.maps.get();
        self.0.maps.set(k + 1);
        let (at, e) = self.0.fault.get()?;
        if k < at {
            return None;
        }
        self.0.fault.set(None);
        self.0.hits.set(self.0.hits.get() + 1);
        Some(e)
    }
}

/// A sink that maps its memory in arbitrary pieces and fails on demand.
pub struct Sink { pub data: Vec<u8>, pub log: Log, pieces: Vec<usize>, extra: usize }
impl Sink {
    pub fn new(r: &mut Rng) -> Sink {
        let pieces = match r.below(4) {
            0 => vec![usize::MAX],
            1 => vec![1],
            _ => (0..r.range(1, 5)).map(|_| r.range(1, 7)).collect(),
        };
        Sink { data: vec![], log: Log::default(), pieces, extra: if r.bool() { 0 } else { r.below(9) } }
    }
}
impl map::Write for Sink {
    unsafe fn commit(&mut self, len: usize) {
        let l = &self.log.0;
        l.commits.set(l.commits.get() + 1);
        l.committed.set(l.committed.get() + len);
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [Un<u8>]> {
        let k = self.log.maps();
        if let Some(e) = self.log.tick() {
            return Flow::Break(e);
        }
        let n = len.min(self.pieces[k % self.pieces.len()]).max(1) + self.extra;
        if self.data.len() < idx + n {
            // Never written memory is not zero.
            self.data.resize(idx + n, 0xd7);
        }
        // SAFETY: the code under test only stores initialized bytes.
        Flow::Continue(unsafe { std::mem::transmute::<&mut [u8], &mut [Un<u8>]>(&mut self.data[idx..idx + n]) })
    }
}

/// A source that maps its memory in arbitrary pieces and fails on demand.
pub struct Source { pub data: Vec<u8>, pub log: Log, pieces: Vec<usize>, extra: usize }
impl Source {
    pub fn new(r: &mut Rng, data: Vec<u8>) -> Source {
        let pieces = match r.below(3) {
            0 => vec![usize::MAX],
            1 => vec![1],
            _ => (0..r.range(1, 5)).map(|_| r.range(1, 7)).collect(),
        };
        Source { data, log: Log::default(), pieces, extra: r.below(4) }
    }
}
impl map::Read for Source {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let k = self.log.maps();
        if let Some(e) = self.log.tick() {
            return Flow::Break(e);
        }
        if idx.checked_add(len).is_none() {
            return Flow::Break(Some(map::Error::Overflow));
        }
        if idx >= self.data.len() {
            return Flow::Break(Some(map::Error::Exceeded));
        }
        let n = len.min(self.pieces[k % self.pieces.len()]).max(1).saturating_add(self.extra);
        Flow::Continue(&self.data[idx..idx.saturating_add(n).min(self.data.len())])
    }
}

/// The plain slice as source; slices themselves are unsized.
pub struct Plain(pub Vec<u8>);
impl map::Read for Plain {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> { self.0[..].map(idx, len) }
}
