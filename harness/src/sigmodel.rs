//! Reference model of D-Bus signatures: grammar, type tree, metadata.

use crate::Rng;

pub const BASIC: &[u8] = b"yqnuitxdbsogh";
pub const CODES14: &[u8] = b"yqnuitxdbsoghv";
pub const CODES: &[u8] = b"yqnuitxdbsoghvam(){}";

/// Why a signature is refused.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    Empty,
    Sequence(usize),
    Incomplete(usize),
    Invalid(usize, u8),
    Unknown(usize, u8),
    Unpaired(usize),
    /// Opening index, closing index, expected opening code.
    Mispaired(usize, usize, u8),
    Dict(usize),
}

/// One element of a signature and what the type tree says about it.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub code: u8,
    pub up: Option<usize>,
    pub position: usize,
    pub length: usize,
    pub dalign: u8,
    pub galign: u8,
}

/// Code, DVar alignment exponent, DVar size, GVar alignment exponent, GVar
/// size, for types on their own.
pub const TABLE: &[(u8, u8, u8, u8, u8)] = &[
    (b'y', 0, 1, 0, 1), (b'q', 1, 2, 1, 2), (b'n', 1, 2, 1, 2), (b'u', 2, 4, 2, 4), (b'i', 2, 4, 2, 4),
    (b't', 3, 8, 3, 8), (b'x', 3, 8, 3, 8), (b'd', 3, 8, 3, 8), (b'b', 2, 4, 0, 1), (b's', 2, 0, 0, 0),
    (b'o', 2, 0, 0, 0), (b'g', 0, 0, 0, 0), (b'h', 2, 4, 2, 4), (b'v', 0, 0, 3, 0), (b'a', 2, 0, 0, 0),
    (b'm', 2, 0, 0, 0), (b'(', 3, 0, 0, 0), (b'{', 3, 0, 0, 0), (b')', 0, 0, 0, 0), (b'}', 0, 0, 0, 0),
];

fn row(c: u8) -> &'static (u8, u8, u8, u8, u8) { TABLE.iter().find(|v| v.0 == c).unwrap() }

pub fn parse(s: &[u8]) -> Result<Vec<Node>, Bad> {
    if s.is_empty() {
        return Err(Bad::Empty);
    }
    let mut nodes: Vec<Node> = vec![];
    // Open containers with the number of types each has so far.
    let mut open: Vec<(usize, usize)> = vec![];
    for (i, &c) in s.iter().enumerate() {
        if i > 0 && open.is_empty() {
            return Err(Bad::Sequence(i));
        }
        if c >= 0x80 {
            return Err(Bad::Invalid(i, c));
        }
        if !CODES.contains(&c) {
            return Err(Bad::Unknown(i, c));
        }
        nodes.push(Node { code: c, up: open.last().map(|v| v.0), position: open.last().map_or(0, |v| v.1), length: 1, dalign: row(c).1, galign: row(c).3 });
        // The complete type that ends here, if any.
        let mut done = match c {
            b'a' | b'm' | b'(' | b'{' => {
                open.push((i, 0));
                continue;
            },
            b')' | b'}' => {
                let want = if c == b')' { b'(' } else { b'{' };
                let Some((o, n)) = open.pop() else { return Err(Bad::Unpaired(i)) };
                if s[o] != want {
                    return Err(Bad::Mispaired(o, i, want));
                }
                if c == b'}' && !(n == 2 && BASIC.contains(&s[o + 1])) {
                    return Err(Bad::Dict(o));
                }
                o
            },
            _ => i,
        };
        loop {
            nodes[done].length = i + 1 - done;
            let Some(up) = open.last_mut() else { break };
            up.1 += 1;
            let u = up.0;
            nodes[u].galign = nodes[u].galign.max(nodes[done].galign);
            if s[u] == b'a' || s[u] == b'm' {
                open.pop();
                done = u;
            } else {
                break;
            }
        }
    }
    match open.last() {
        Some(v) => Err(Bad::Incomplete(v.0)),
        None => Ok(nodes),
    }
}

/// A random valid type of about `n` elements.
pub fn gen_type(r: &mut Rng, n: usize, out: &mut Vec<u8>) {
    // Iterative, so deep nesting is possible.
    enum Todo { Type(usize), Code(u8) }
    let mut todo = vec![Todo::Type(n)];
    while let Some(t) = todo.pop() {
        let n = match t {
            Todo::Code(c) => { out.push(c); continue },
            Todo::Type(n) => n,
        };
        if n <= 1 {
            out.push(*r.pick(b"yqnuitxdbsoghvvstuy"));
            continue;
        }
        match r.below(6) {
            0 | 1 => {
                out.push(*r.pick(b"aaam"));
                todo.push(Todo::Type(n - 1));
            },
            2 if n >= 4 => {
                out.push(b'{');
                out.push(*r.pick(BASIC));
                todo.push(Todo::Code(b'}'));
                todo.push(Todo::Type(n - 3));
            },
            _ => {
                out.push(b'(');
                todo.push(Todo::Code(b')'));
                let mut left = n.saturating_sub(2);
                while left > 0 {
                    let k = if r.chance(1, 3) { left } else { r.range(1, left.min(1 + left / 2)) };
                    todo.push(Todo::Type(k));
                    left -= k;
                }
            },
        }
    }
}

/// A random length with emphasis on where the representation changes.
pub fn gen_len(r: &mut Rng, miri: bool) -> usize {
    match r.below(10) {
        0..=4 => r.range(1, 12),
        5 | 6 => r.range(27, 36),
        7 => r.range(1, 40),
        8 => r.range(30, if miri { 40 } else { 120 }),
        _ => r.range(12, if miri { 34 } else { 300 }),
    }
}

/// A valid signature, or one damaged by a few edits, or noise.
pub fn gen_text(r: &mut Rng, miri: bool) -> Vec<u8> {
    let mut s = vec![];
    if r.chance(1, 10) {
        let n = gen_len(r, miri);
        return (0..n).map(|_| *r.pick(CODES)).collect();
    }
    let n = gen_len(r, miri);
    gen_type(r, n, &mut s);
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 3) {
            let i = r.below(s.len() + 1);
            let c = if r.chance(1, 6) { r.u8() } else { *r.pick(CODES) };
            match r.below(5) {
                0 => s.insert(i, c),
                1 if i < s.len() => s[i] = c,
                2 if i < s.len() => { s.remove(i); },
                3 => s.truncate(i),
                _ => s.push(c),
            }
        }
    }
    s
}

/// A valid signature of `n` or more elements: deep, wide, or mixed.
pub fn gen_large(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = vec![];
    match r.below(8) {
        0 => { s = (0..n).map(|_| *r.pick(b"aaam")).collect(); s.push(*r.pick(BASIC)) },
        1 => { s = vec![b'(']; s.extend((0..n).map(|_| *r.pick(BASIC))); s.push(b')') },
        2 => { s = vec![b'('; n]; s.extend(vec![b')'; n]) },
        3 => { for _ in 0..n { s.extend_from_slice(b"{s") } s.push(b'v'); s.extend(vec![b'}'; n]) },
        // Everything alike but the last member.
        4 => { s = vec![b'(']; s.extend(vec![*r.pick(b"ybg"); n]); s.push(*r.pick(CODES14)); s.push(b')') },
        // A small type behind, between or around many others.
        5 => {
            s = vec![b'('];
            let k = r.below(n + 1);
            s.extend(vec![*r.pick(BASIC); k]);
            let m = r.range(1, 12);
            gen_type(r, m, &mut s);
            s.extend(vec![*r.pick(BASIC); n - k]);
            s.push(b')');
        },
        6 => {
            s = vec![b'('];
            while s.len() < n {
                let m = r.range(1, 40);
                gen_type(r, m, &mut s);
            }
            s.push(b')');
        },
        _ => gen_type(r, n, &mut s),
    }
    s
}
