//! D-Bus decoder: arbitrary, truncated and corrupted data.

use harness::dvarmodel::*;
use harness::*;
use std::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::Dec;
use tmp::fmt::dbus::{Error, Sig};
use tmp::io::map;

/// The reference decoder. `sane` holds as long as everything read so far is
/// what a correct encoder could have produced; past that point the decoder may
/// refuse to continue, but still never return other data. `lost` means that the
/// position is not specified any more.
#[derive(Clone)]
struct Model<'a> { data: &'a [u8], be: bool, idx: usize, ends: Vec<usize>, sane: bool, lost: bool }

#[derive(Clone, Debug, PartialEq)]
enum Out { Num(u16), Text(String), NonUtf8, Short, Fine }

impl Model<'_> {
    fn align(&mut self, n: usize) {
        let to = self.idx.next_multiple_of(n);
        if self.data.get(self.idx..to).is_none_or(|v| v.iter().any(|v| *v != 0)) {
            self.sane = false;
        }
        self.idx = to;
    }
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        let v = self.data.get(self.idx..self.idx.checked_add(n)?)?;
        self.idx += n;
        if self.ends.last().is_some_and(|e| self.idx > *e) {
            self.sane = false;
        }
        Some(v)
    }
    fn u32(&mut self) -> Option<usize> {
        self.align(4);
        let be = self.be;
        let b: [u8; 4] = self.take(4)?.try_into().unwrap();
        Some(if be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) } as usize)
    }
    fn text(&mut self, n: usize) -> Out {
        let Some(v) = self.take(n) else { return Out::Short };
        let t = String::from_utf8(v.to_vec());
        self.idx += 1;
        if self.data.get(self.idx - 1) != Some(&0) || self.ends.last().is_some_and(|e| self.idx > *e) {
            self.sane = false;
        }
        t.map_or(Out::NonUtf8, Out::Text)
    }
    /// Perform an operation that matches the type; unchanged on failure.
    fn apply(&mut self, op: u8, elem: usize) -> Out {
        let save = (self.idx, self.sane);
        let o = match op {
            b'q' => {
                self.align(2);
                let be = self.be;
                self.take(2).map_or(Out::Short, |v| {
                    let b = [v[0], v[1]];
                    Out::Num(if be { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) })
                })
            },
            b's' => match self.u32() {
                Some(n) => self.text(n),
                None => Out::Short,
            },
            b'g' => match self.take(1).map(|v| v[0]) {
                Some(n) => self.text(n as usize),
                None => Out::Short,
            },
            b'a' => match self.u32() {
                Some(n) => {
                    self.align(elem);
                    let Some(end) = self.idx.checked_add(n) else {
                        self.sane = false;
                        return Out::Short;
                    };
                    if end > self.data.len() || n > 1 << 26 || self.ends.last().is_some_and(|e| end > *e) {
                        self.sane = false;
                    }
                    self.ends.push(end);
                    Out::Fine
                },
                None => Out::Short,
            },
            _ => {
                let end = self.ends.pop().unwrap();
                if self.idx < end {
                    self.lost = true;
                }
                if self.idx != end {
                    self.sane = false;
                }
                Out::Fine
            },
        };
        if matches!(o, Out::Short | Out::NonUtf8) {
            self.idx = save.0;
        }
        o
    }
    fn more(&self, base: usize) -> bool { self.ends.len() > base && self.idx < *self.ends.last().unwrap() }
}

struct Cx { wild: usize, trace: Vec<u8>, reads: usize, refused: u64 }

enum Next { Go, Quit }

fn contains(data: &[u8], v: &[u8]) -> bool { v.is_empty() || data.windows(v.len()).any(|w| w == v) }

/// Perform one operation on both, and compare.
fn step(d: &mut Dec<'_, '_>, op: u8, elem: usize, m: &mut Model, r: &mut Rng, cx: &mut Cx) -> Result<Next, String> {
    let mut q = r.u16();
    let mut s = text(r, 6);
    let (q0, s0) = (q, s.clone());
    let size = m.data.len();
    for round in 0..2 {
        let mark = AllocMark::new();
        let f = match op {
            b'q' => d.u16(&mut q),
            b's' => d.string(&mut s),
            b'g' => d.signature(&mut s),
            b'a' => d.array(),
            _ => d.close(),
        };
        let got = match f {
            Flow::Continue(_) => Ok(()),
            Flow::Break(e) => Err(e),
        };
        let (peak, largest) = (mark.peak(), mark.largest());
        ensure!(peak <= 4 * size + 2048 && largest <= 4 * size + 2048, "{:?} on {size} bytes of data allocated up to {peak} bytes", op as char);
        let was = m.sane;
        let want = m.apply(op, elem);
        let unchanged = q == q0 && s == s0;
        match got {
            Ok(()) => {
                cx.reads += 1;
                ensure!(cx.reads <= 2 * size + 64, "{} reads from {size} bytes", cx.reads);
                cx.trace.push(op);
                if m.lost {
                    let b = if m.be { q.to_be_bytes() } else { q.to_le_bytes() };
                    match op {
                        b'q' => ensure!(contains(m.data, &b), "number {q:#x} is not in the data"),
                        b's' | b'g' => ensure!(contains(m.data, s.as_bytes()), "text {s:?} is not in the data"),
                        _ => (),
                    }
                    return Ok(Next::Go);
                }
                let has = match op { b'q' => Out::Num(q), b's' | b'g' => Out::Text(s), _ => Out::Fine };
                same!(has, want, "{:?}", op as char);
                return Ok(Next::Go);
            },
            Err(e) => {
                cx.refused += 1;
                ensure!(unchanged, "target changed by a failed {:?} ({e:?})", op as char);
                if round == 0 {
                    cx.trace.push(op.to_ascii_uppercase());
                }
                if m.lost || !was {
                    // Refusing is fine, whatever the reason.
                    return Ok(Next::Quit);
                }
                match (&want, e) {
                    (Out::Short, Some(Error::Io(_))) => (),
                    (Out::NonUtf8, Some(Error::DataNonUtf8)) => (),
                    // This very item is malformed.
                    _ if !m.sane => return Ok(Next::Quit),
                    _ => return Err(format!("{:?} failed\n  observed: {e:?}\n  expected: {want:?}", op as char)),
                }
                if !m.sane {
                    return Ok(Next::Quit);
                }
                // Nothing changed, so once more gives the same.
            },
        }
    }
    Ok(Next::Quit)
}

fn walk(d: &mut Dec<'_, '_>, base: usize, s: &[u8], m: &mut Model, r: &mut Rng, cx: &mut Cx) -> Result<Next, String> {
    macro_rules! go { ($e:expr) => { if let Next::Quit = $e? { return Ok(Next::Quit) } }; }
    if !m.lost {
        same!(d.more(), m.more(base), "more data at {} of {}", m.idx, m.data.len());
    }
    if r.below(100) < cx.wild {
        // A wrong operation changes nothing, whatever the data.
        let (mut q, mut t) = (1, String::new());
        let bad = match s[0] { b'q' => d.string(&mut t), b's' => d.signature(&mut t), b'g' => d.array(), b'a' => d.u16(&mut q), _ => d.u16(&mut q) };
        ensure!(matches!(bad, Flow::Break(Some(Error::Mismatch))), "wrong operation not refused");
        ensure!(q == 1 && t.is_empty(), "target changed by a wrong operation");
    }
    if r.below(100) < cx.wild {
        let keep = r.chance(2, 3);
        let mut n = m.clone();
        let reads = cx.reads;
        cx.trace.push(if keep { b'<' } else { b'[' });
        let res = {
            let mut sub = d.dec().map_err(|e| format!("nested decoder: {e:?}"))?;
            let base = m.ends.len();
            // Within the nested decoder nothing is known of outer ends.
            let mut go = || -> Result<Next, String> {
                go!(walk(&mut sub, base, s, &mut n, r, cx));
                if keep {
                    same!(sub.commit(), Ok(()), "nested commit");
                }
                Ok(Next::Go)
            };
            go()?
        };
        if keep {
            *m = n;
            if let Next::Quit = res {
                return Ok(Next::Quit);
            }
            return Ok(Next::Go);
        }
        // The nested decoder is gone, the outer one has not moved.
        cx.reads = reads;
    }
    match s[0] {
        c @ (b'q' | b's' | b'g') => step(d, c, 0, m, r, cx),
        b'a' => {
            go!(step(d, b'a', elem(s[1]), m, r, cx));
            let readable = matches!(s[1], b'q' | b's' | b'g' | b'a');
            let mut n = 0;
            while readable && (if r.below(100) < cx.wild / 4 { r.bool() } else { d.more() }) {
                go!(walk(d, base, &s[1..], m, r, cx));
                n += 1;
                ensure!(n <= m.data.len() + 64, "{n} elements in {} bytes", m.data.len());
            }
            step(d, b'/', 0, m, r, cx)
        },
        _ => Ok(Next::Quit),
    }
}

fn elem(c: u8) -> usize {
    match c { b'q' => 2, b's' | b'u' | b'a' | b'o' => 4, b't' | b'(' | b'{' => 8, _ => 1 }
}

fn sig(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(1, 20) { r.range(5, 30) } else { r.below(5) };
    let mut s = vec![b'a'; n];
    if n > 0 && r.chance(1, 10) {
        s.extend_from_slice(*r.pick(&[&b"(qq)"[..], b"v", b"t", b"{sv}", b"o", b"u"]));
    } else {
        s.push(*r.pick(b"qsgs"));
    }
    s
}

fn value(r: &mut Rng, s: &[u8], budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    match s[0] {
        b'q' => V::Q(r.u16()),
        b's' => V::S(text(r, 20)),
        b'g' => V::G(text(r, 60)),
        b'a' => {
            let n = if *budget == 0 || !matches!(s[1], b'a' | b'q' | b's' | b'g') { 0 } else { r.below(5) };
            V::Arr((0..n).map(|_| value(r, &s[1..], budget)).collect())
        },
        _ => unreachable!(),
    }
}

fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if d.is_empty() {
            d.push(r.u8());
        }
        let i = r.below(d.len());
        match r.below(8) {
            0 => d[i] ^= 1 << r.below(8),
            1 => d[i] = r.u8(),
            2 => d[i] = *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xff]),
            3 => d.truncate(i),
            4 => d.insert(i, r.u8()),
            5 => { d.remove(i); },
            6 => {
                // A hostile length.
                let i = i / 4 * 4;
                let n = d.len() as u32;
                let v = match r.below(4) { 0 => r.edge64() as u32, 1 => n.wrapping_add(r.below(9) as u32).wrapping_sub(4), 2 => u32::MAX - r.below(9) as u32, _ => r.below(12) as u32 };
                let b = if r.bool() { v.to_le_bytes() } else { v.to_be_bytes() };
                for (k, b) in b.into_iter().enumerate() {
                    if let Some(x) = d.get_mut(i + k) {
                        *x = b;
                    }
                }
            },
            _ => { let v = d[i..].to_vec(); d.extend(v) },
        }
    }
}

fn one(c: &mut Case, s: &[u8], g: &Sig, data: &[u8], be: bool, wild: usize) -> R {
    let r = &mut c.rng;
    let mut src = Source::new(r, data.to_vec());
    let mut plain = Plain(data.to_vec());
    let read: &mut dyn map::Read = if r.bool() { &mut src } else { &mut plain };
    let mut d = if be { Dec::new_be(g, read) } else { Dec::new_le(g, read) };
    let mut m = Model { data, be, idx: 0, ends: vec![], sane: true, lost: false };
    let mut cx = Cx { wild, trace: vec![], reads: 0, refused: 0 };
    let ctx = |m: String| format!("{m}\n  {} from {} ({})", show(s), show(data), if be { "big endian" } else { "little endian" });
    match walk(&mut d, 0, s, &mut m, r, &mut cx).map_err(ctx)? {
        Next::Go => same!(d.commit(), Ok(()), "commit of {} from {}", show(s), show(data)),
        Next::Quit => if !matches!(cx.trace.last(), None | Some(b'>')) && cx.refused > 0 {
            same!(d.commit(), Err(Error::Pending), "commit of {} from {}", show(s), show(data));
        },
    }
    c.st.evaluations += 1;
    let (t, k) = (cx.trace, cx.refused);
    c.count("refused operations", k);
    c.count("successful operations", cx.reads as u64);
    c.observe(&(s, t));
    Ok(())
}

fn corrupted(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sig(r);
    let g = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut b = if cfg!(miri) { 6 } else { 40 };
    let v = value(r, &s, &mut b);
    let be = r.bool();
    let mut data = vec![];
    marshal(&mut data, be, &s, &v);
    mutate(r, &mut data);
    let wild = *r.pick(&[0, 10, 30]);
    one(c, &s, &g, &data, be, wild)?;
    c.st.evaluations -= 1;
    c.sample(|| format!("{} from {}", show(&s), show(&data)));
    Ok(())
}

fn truncated(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sig(r);
    let g = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut b = if cfg!(miri) { 3 } else { 30 };
    let v = value(r, &s, &mut b);
    let be = r.bool();
    let mut data = vec![];
    marshal(&mut data, be, &s, &v);
    for n in 0..data.len().min(if cfg!(miri) { 8 } else { 400 }) {
        one(c, &s, &g, &data[..n], be, 0)?;
    }
    Ok(())
}

fn random(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sig(r);
    let g = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let n = r.below(if cfg!(miri) { 16 } else { 120 });
    let kind = r.below(3);
    let data: Vec<u8> = (0..n).map(|_| match kind { 0 => r.u8(), 1 => if r.chance(1, 4) { r.below(12) as u8 } else { 0 }, _ => *r.pick(&[0, 0, 0, 1, 4, 8, b'a', b'b', 0xc3, 0xa4, 0xff]) }).collect();
    let be = r.bool();
    let wild = *r.pick(&[0, 10, 30]);
    one(c, &s, &g, &data, be, wild)?;
    c.st.evaluations -= 1;
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("corrupted", (300_000, 8_000_000, 24), corrupted);
    cx.section("truncated", (10_000, 200_000, 4), truncated);
    cx.section("random", (300_000, 8_000_000, 16), random);
}

fn main() {
    harness::main(
        "C21",
        "A case decodes one corrupted, truncated or random input with a signature; distinct = distinct (signature, sequence of successful and refused operations).",
        run,
    );
}
