//! Streamed I/O: consuming, appending, conditional mapping.

use harness::*;
use std::cell::Cell;
use std::mem::MaybeUninit as Un;
use std::ops::ControlFlow as Flow;
use std::rc::Rc;
use tmp::io::stream::{read_map_while, More, Read, Write};

fn hint(r: &mut Rng, n: usize) -> Option<usize> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some(usize::MAX),
        3 => Some(r.edge64() as usize),
        _ => Some(r.below(n + 4)),
    }
}

thread_local! {
    /// Bound of stream and transfer sizes.
    static SIZE: Cell<usize> = const { Cell::new(if cfg!(miri) { 16 } else { 48 }) };
}
fn size() -> usize { SIZE.get() }

/// Run with streams of many thousand bytes.
fn large(c: &mut Case) -> R {
    let old = SIZE.replace(*c.rng.pick(&[1200, 5000, 9000, 20_000, 140_000]));
    let res = match c.idx % 4 {
        0 => slice(c),
        1 => map_while(c),
        2 => sink(c),
        _ => vec(c),
    };
    SIZE.set(old);
    res.map_err(|m| if m.len() > 4000 { format!("{} ...", m.chars().take(4000).collect::<String>()) } else { m })
}

/// Slices as streams.
fn slice(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(size());
    let data = r.bytes(n);
    let mut s = &data[..];
    let mut pos = 0;
    let mut trace = vec![];
    for _ in 0..r.ops(10) {
        let left = n - pos;
        let min = match r.below(5) { 0 => left, 1 => left + 1, 2 => r.edge64() as usize, _ => r.below(left + 3) };
        let max = hint(r, left);
        for _ in 0..2 {
            match Read::map(&s, min, max) {
                Flow::Continue(m) => {
                    ensure!(min <= left, "mapped {min} with only {left} left");
                    ensure!(m.len() >= min && data[pos..].starts_with(m), "map({min}, {max:?}) at {pos} of {} is {}", show(&data), show(m));
                },
                Flow::Break(m) => {
                    ensure!(min > left, "map({min}, {max:?}) refused with {left} left");
                    same!(m.min, min, "minimum needed for map({min}, {max:?})");
                    same!(m.max, max, "maximum of map({min}, {max:?})");
                },
            }
        }
        let k = r.below(left + 1);
        if r.bool() {
            s.advance(k);
            pos += k;
            same!(s, &data[pos..], "rest after consuming {k}");
        }
        trace.push((min, max, pos));
    }
    c.observe(&(n, &trace));
    Ok(())
}

/// A stream with partial arrival, mapping as little as allowed, or more.
struct Src { data: Vec<u8>, pos: usize, limit: Rc<Cell<usize>>, lazy: u8, bad: Cell<bool> }
impl Read for Src {
    fn advance(&mut self, len: usize) {
        assert!(self.pos + len <= self.limit.get());
        self.pos += len;
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        let have = &self.data[self.pos..self.limit.get()];
        if min > have.len() {
            return Flow::Break(More { min, max });
        }
        if max.is_some_and(|m| m < min) {
            self.bad.set(true);
        }
        let n = match self.lazy {
            0 => have.len(),
            1 => min,
            2 => max.unwrap_or(usize::MAX).clamp(min, have.len().max(min)).min(have.len()),
            _ => (min + 3).min(have.len()),
        };
        Flow::Continue(&have[..n])
    }
}

fn map_while(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(size());
    let rare = if n > 100 { *r.pick(&[8, 500, 5000, 70_000]) } else { 8 };
    let data: Vec<u8> = (0..n).map(|_| if r.chance(1, rare) { r.u8() | 0x80 } else { r.u8() & 0x7f }).collect();
    let limit = Rc::new(Cell::new(r.below(n + 1)));
    let mut s = Src { data: data.clone(), pos: 0, limit: limit.clone(), lazy: r.below(4) as u8, bad: Cell::new(false) };
    let mut trace = vec![];
    while trace.len() < 12 {
        let base = s.pos;
        let rest = &data[base..];
        let max = r.chance(1, 3).then(|| r.range(1, n + 2));
        let maxv = max.unwrap_or(usize::MAX);
        // The caller vouches for the first `start` bytes.
        let start = if r.chance(1, 3) { r.below(rest.len().min(maxv.saturating_sub(1)) + 1) } else { 0 };
        let end = rest.iter().enumerate().skip(start).find(|v| v.1 & 0x80 != 0).map(|v| v.0);
        let mut idx = start;
        let mut asked = vec![];
        let mut quit = false;
        loop {
            let have = limit.get() - base;
            let pred = |i: usize, b: u8| {
                asked.push((i, b));
                b & 0x80 == 0
            };
            let f = if r.bool() {
                read_map_while(&s, &mut idx, max, pred)
            } else {
                let d: &dyn Read = &s;
                d.map_while(&mut idx, max, pred)
            };
            // The longest matching prefix of what has arrived.
            let stop = end.unwrap_or(usize::MAX).min(maxv);
            let ctx = || format!("from {start}, max {max:?}, {have} of {} arrived", show(rest));
            match f {
                Flow::Continue(m) => {
                    ensure!(idx == stop, "prefix ends at {idx} instead of {stop} {}", ctx());
                    ensure!(rest[..have].starts_with(m), "map {} {}", show(m), ctx());
                    ensure!(m.len() > idx || idx == maxv && m.len() == maxv, "map of {} for a prefix of {idx} {}", m.len(), ctx());
                    ensure!(max.is_none_or(|v| m.len() <= v), "map of {} past the maximum {}", m.len(), ctx());
                },
                Flow::Break(m) => {
                    ensure!(stop >= have, "more data requested {}", ctx());
                    same!(idx, have.max(start), "resume position {}", ctx());
                    same!(m.min, idx + 1, "data requested {}", ctx());
                    same!(m.max, max, "maximum requested {}", ctx());
                    if base + have >= n {
                        quit = true;
                        break;
                    }
                    limit.set(r.range(base + have + 1, n));
                    continue;
                },
            }
            break;
        }
        let want: Vec<(usize, u8)> = (start..end.map_or(rest.len(), |v| v + 1).min(maxv).min(rest.len())).map(|i| (i, rest[i])).collect();
        ensure!(asked == want, "bytes examined {asked:?} instead of {want:?} in {}", show(rest));
        trace.push((base, start, max, idx));
        if quit {
            break;
        }
        let k = r.below(limit.get() - base + 1);
        s.advance(k);
    }
    ensure!(!s.bad.get(), "mapping requested with a maximum below its minimum");
    c.observe(&(&data.iter().map(|v| v >> 7).collect::<Vec<_>>(), &trace));
    c.count("conditional maps", trace.len() as u64);
    Ok(())
}

/// A sink of bounded space that moves its buffer on every map.
struct Dst { buf: Vec<u8>, out: Vec<u8>, space: usize }
impl Write for Dst {
    unsafe fn commit(&mut self, len: usize) {
        self.out.extend(self.buf.drain(..len));
        self.space -= len;
    }
    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Un<u8>]> {
        if min > self.space {
            return Flow::Break(More { min, max });
        }
        let mut n = self.buf.clone();
        n.resize(self.space, 0xee);
        self.buf = n;
        // SAFETY: the monitored helpers only ever store initialized bytes.
        Flow::Continue(unsafe { std::mem::transmute::<&mut [u8], &mut [Un<u8>]>(&mut self.buf[..]) })
    }
}

fn sink(c: &mut Case) -> R {
    let r = &mut c.rng;
    let space = r.below(size());
    let mut d = Dst { buf: vec![], out: vec![], space };
    let mut want = vec![];
    let mut trace = vec![];
    for _ in 0..r.ops(8) {
        let n = r.below(size() / 3);
        let b = r.bytes(n);
        let left = d.space;
        let f = Write::write(&mut d, &b);
        if n <= left {
            same!(f, Flow::Continue(()), "write of {n} with space for {left}");
            want.extend_from_slice(&b);
        } else {
            match f {
                Flow::Break(m) => same!(m.min, n, "space needed for {n} bytes"),
                _ => return Err(format!("write of {n} with space for {left} succeeds")),
            }
        }
        same!(d.out, want, "output after writing {n} with space for {left}");
        same!(d.space, space - want.len(), "space left");
        // Already written but uncommitted data.
        if d.space > 0 {
            let k = r.below(d.space);
            let fill = r.u8();
            if let Flow::Continue(m) = Write::map(&mut d, k, None) {
                m[..k].fill(Un::new(fill));
            }
            match unsafe { d.map_unchecked(k) } {
                Flow::Continue(m) => ensure!(m.len() == k && m.iter().all(|v| *v == fill), "initialized map of {k}"),
                Flow::Break(_) => return Err(format!("initialized map of {k} refused")),
            }
        }
        let k = d.space + 1;
        ensure!(unsafe { d.map_unchecked(k) }.is_break(), "initialized map past the space");
        trace.push((n, left));
    }
    c.observe(&("sink", &trace));
    Ok(())
}

/// Growable buffers.
fn vec(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(20);
    let mut model = r.bytes(n);
    let mut v = model.clone();
    if r.bool() {
        v.reserve_exact(r.below(64));
    } else if r.bool() {
        v.shrink_to_fit();
    }
    let mut pend: Vec<u8> = vec![];
    let mut trace = vec![];
    let small = size();
    for _ in 0..r.ops(10) {
        let op = r.below(4);
        let k;
        match op {
            0 => {
                // Map and initialize a prefix.
                let min = r.below(small);
                let max = hint(r, min);
                let m = match Write::map(&mut v, min, max) {
                    Flow::Continue(m) => m,
                    Flow::Break(m) => return Err(format!("map({min}, {max:?}) refused: {m:?}")),
                };
                ensure!(m.len() >= min, "map({min}, {max:?}) gives {}", m.len());
                // Earlier content of the map is retained.
                for (i, b) in pend.iter().enumerate().take(m.len()) {
                    same!(unsafe { m[i].assume_init() }, *b, "retained byte {i} of map({min}, {max:?})");
                }
                let fill = r.bytes(min);
                for i in 0..min {
                    m[i].write(fill[i]);
                }
                if pend.len() < min {
                    pend.resize(min, 0);
                }
                pend[..min].copy_from_slice(&fill);
                k = min;
            },
            1 => {
                k = r.below(pend.len() + 1);
                match unsafe { v.map_unchecked(k) } {
                    Flow::Continue(m) => same!(&*m, &pend[..k], "initialized map of {k}"),
                    Flow::Break(m) => return Err(format!("initialized map of {k} refused: {m:?}")),
                }
            },
            2 => {
                k = r.below(pend.len() + 1);
                unsafe { Write::commit(&mut v, k) };
                model.extend(pend.drain(..k));
            },
            _ => {
                k = r.below(small);
                let b = r.bytes(k);
                same!(Write::write(&mut v, &b), Flow::Continue(()), "write of {k}");
                model.extend_from_slice(&b);
                pend.drain(..k.min(pend.len()));
            },
        }
        same!(v, model, "content after step {op} of {k}");
        trace.push((op, k));
    }
    c.observe(&(n, &trace));
    c.sample(|| format!("{trace:?}"));
    c.count("buffer steps", trace.len() as u64);
    Ok(())
}

fn run(cx: &mut Ctx) {
    if !cx.miri() {
        cx.section("large", (1_000, 20_000, 0), large);
    }
    cx.section("slice", (200_000, 4_000_000, 40), slice);
    cx.section("while", (200_000, 4_000_000, 40), map_while);
    cx.section("sink", (100_000, 2_000_000, 40), sink);
    cx.section("vec", (200_000, 4_000_000, 60), vec);
}

fn main() {
    harness::main(
        "C23",
        "A case is a history of mapping, consuming, writing and committing on one stream, or a conditional mapping resumed as data arrives; distinct = distinct histories of requests and positions.",
        run,
    );
}
