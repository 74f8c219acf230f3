//! Mapped I/O: exact transfers, positions, errors, growable buffers.

use harness::*;
use std::cell::Cell;
use std::mem::MaybeUninit as Un;
use std::ops::ControlFlow as Flow;
use tmp::io::map::{Error, Read, Write};

/// How storage answers mapping requests.
#[derive(Clone, Debug, Hash)]
struct Plan { limit: usize, pieces: Vec<usize>, extra: usize, fail: Option<(usize, Option<Error>)> }

impl Plan {
    fn make(r: &mut Rng, len: usize) -> Plan {
        let limit = if r.chance(1, 3) { r.below(len + 1) } else { len };
        let pieces = match r.below(4) {
            0 => vec![usize::MAX],
            1 => vec![1],
            3 if len > 100 => vec![interesting(r)],
            2 if len > 100 => (0..r.range(1, 5)).map(|_| match r.below(3) { 0 => 1 << r.below(18), 1 => r.range(1, len), _ => *r.pick(&[255, 256, 1000, 1001, 4095, 4096, 4097, 65535]) }).collect(),
            _ => (0..r.range(1, 5)).map(|_| r.range(1, 9)).collect(),
        };
        let extra = if r.bool() { 0 } else { r.below(12) };
        let fail = r.chance(1, 4).then(|| (r.below(4), *r.pick(&[None, Some(Error::Overflow), Some(Error::Exceeded)])));
        Plan { limit, pieces, extra, fail }
    }
    /// The answer to the `k`-th request.
    fn answer(&self, k: usize, idx: usize, len: usize) -> Flow<Option<Error>, (usize, usize)> {
        if let Some((at, e)) = self.fail {
            if k >= at {
                return Flow::Break(e);
            }
        }
        if idx >= self.limit {
            return Flow::Break(Some(Error::Exceeded));
        }
        let n = len.min(self.pieces[k % self.pieces.len()]).max(1).saturating_add(self.extra);
        Flow::Continue((idx, (idx.saturating_add(n)).min(self.limit)))
    }
}

struct Src { data: Vec<u8>, plan: Plan, calls: Cell<usize>, err: Cell<Option<Option<Error>>> }
impl Read for Src {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        let k = self.calls.replace(self.calls.get() + 1);
        match self.plan.answer(k, idx, len) {
            Flow::Break(e) => { self.err.set(Some(e)); Flow::Break(e) },
            Flow::Continue((a, b)) => Flow::Continue(&self.data[a..b]),
        }
    }
}

struct Dst { data: Vec<u8>, plan: Plan, calls: usize, err: Option<Option<Error>>, committed: usize }
impl Write for Dst {
    unsafe fn commit(&mut self, len: usize) { self.committed += len }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [Un<u8>]> {
        let k = self.calls;
        self.calls += 1;
        match self.plan.answer(k, idx, len) {
            Flow::Break(e) => { self.err = Some(e); Flow::Break(e) },
            // SAFETY: the monitored helpers only ever store initialized bytes.
            Flow::Continue((a, b)) => Flow::Continue(unsafe { std::mem::transmute::<&mut [u8], &mut [Un<u8>]>(&mut self.data[a..b]) }),
        }
    }
}

thread_local! {
    /// Bound of storage and transfer sizes.
    static SIZE: Cell<usize> = const { Cell::new(if cfg!(miri) { 24 } else { 80 }) };
}
fn size() -> usize { SIZE.get() }

/// Sizes at which buffers tend to end, and close to those.
fn interesting(r: &mut Rng) -> usize { *r.pick(&[256usize, 1000, 1024, 4096]) * *r.pick(&[1usize, 1, 1, 2, 3]) - 1 + r.below(3) }

/// Run with storage of many thousand bytes.
fn large(c: &mut Case) -> R {
    let old = SIZE.replace(*c.rng.pick(&[1200, 5000, 9000, 20_000, 140_000]));
    let res = match c.idx % 3 {
        0 => read(c),
        1 => write(c),
        _ => vec(c),
    };
    SIZE.set(old);
    res.map_err(|m| if m.len() > 4000 { format!("{} ...", m.chars().take(4000).collect::<String>()) } else { m })
}

/// Reading through arbitrary pieces.
fn read(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(size());
    let data = r.bytes(n);
    let plan = Plan::make(r, n);
    let s = Src { data: data.clone(), plan: plan.clone(), calls: Cell::new(0), err: Cell::new(None) };
    let mut idx = r.below(n + 2);
    let mut trace = vec![];
    for _ in 0..r.ops(4) {
        let start = idx;
        let len = if n > 600 && r.bool() { interesting(r).min(n) } else { r.below(n + 4) };
        let mut buf = vec![0xaau8; len];
        s.err.set(None);
        let f = if r.bool() {
            s.read(&mut idx, &mut buf)
        } else {
            let mut u = vec![Un::new(0xaau8); len];
            let f = s.read_uninit(&mut idx, &mut u);
            buf = u.iter().map(|v| unsafe { v.assume_init() }).collect();
            f
        };
        let ctx = || format!("reading {len} at {start} of {n} with {plan:?}");
        ensure!(idx >= start && idx - start <= len, "position {idx} after {}", ctx());
        let got = idx - start;
        same!(&buf[..got], &data[start.min(n)..start.min(n) + got], "bytes {}", ctx());
        ensure!(buf[got..].iter().all(|v| *v == 0xaa), "target past {got} changed {}", ctx());
        match f {
            Flow::Continue(()) => {
                same!(got, len, "bytes transferred {}", ctx());
                same!(s.err.get(), None, "swallowed error {}", ctx());
            },
            Flow::Break(e) => {
                same!(Some(e), s.err.get(), "error {}", ctx());
                ensure!(got < len, "error in spite of a full transfer {}", ctx());
                if plan.fail.is_none() {
                    same!(got, plan.limit.saturating_sub(start).min(len), "bytes before the error {}", ctx());
                }
            },
        }
        trace.push((start, len, got));
    }
    c.observe(&(&plan, &trace));
    c.count("reads", trace.len() as u64);
    Ok(())
}

/// Plain byte slices as storage.
fn slice(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(size());
    let data = r.bytes(n);
    let pos = |r: &mut Rng| match r.below(6) { 0 => r.edge64() as usize, 1 => usize::MAX - r.below(4), 2 => n + r.below(3), _ => r.below(n + 1) };
    let (idx, len) = (pos(r), pos(r));
    let want = match idx.checked_add(len) {
        None => Err(Some(Error::Overflow)),
        Some(e) if e > n => Err(Some(Error::Exceeded)),
        Some(e) => Ok(&data[idx..e]),
    };
    match (Read::map(&data[..], idx, len), &want) {
        (Flow::Continue(m), Ok(w)) => {
            ensure!(m.len() >= w.len() && &&m[..w.len()] == w, "map of {len} at {idx} in {}", show(&data));
            ensure!(data[idx..].starts_with(m), "map past the request of {len} at {idx} in {}", show(&data));
        },
        (Flow::Break(e), Err(w)) => same!(e, *w, "error for {len} at {idx} of {n}"),
        (f, w) => return Err(format!("map of {len} at {idx} of {n} gives {f:?} instead of {w:?}")),
    }
    if len < 4096 {
        let mut i = idx;
        let mut buf = vec![0x55u8; len];
        let f = Read::read(&data[..], &mut i, &mut buf);
        match (f, &want) {
            (Flow::Continue(()), Ok(w)) => {
                same!(i, idx + len, "position after reading {len} at {idx} of {n}");
                same!(&&buf[..], w, "bytes read at {idx} of {}", show(&data));
            },
            // An empty read needs no mapping, so nothing can be refused.
            (Flow::Continue(()), Err(_)) if len == 0 => same!(i, idx, "position after reading nothing"),
            (Flow::Break(e), Err(w)) => {
                same!(e, *w, "error reading {len} at {idx} of {n}");
                let got = i - idx;
                ensure!(buf[got..].iter().all(|v| *v == 0x55), "target past {got} changed");
            },
            (f, w) => return Err(format!("reading {len} at {idx} of {n} gives {f:?} instead of {w:?}")),
        }
    }
    c.observe(&(n, idx, len));
    Ok(())
}

/// One write operation; returns the bytes it is to store.
#[derive(Clone, Debug, Hash)]
enum Op { Write(Vec<u8>), Iter(Vec<u8>), Fill(usize, u8), Zero(usize), Align(u8) }
fn gen_op(r: &mut Rng, max: usize) -> Op {
    let n = if max > 600 && r.bool() { interesting(r).min(max) } else { r.below(max) };
    match r.below(7) {
        0 | 1 => Op::Write(r.bytes(n)),
        2 | 3 => Op::Iter(r.bytes(n)),
        4 => Op::Fill(n, r.u8()),
        5 => Op::Zero(n),
        _ => Op::Align(match r.below(16) {
            0 if !cfg!(miri) && r.chance(1, 40) => r.range(13, 20),
            0 | 1 => r.range(6, if cfg!(miri) { 8 } else { 12 }),
            _ => r.below(6),
        } as u8),
    }
}
fn bytes_of(o: &Op, idx: usize) -> Vec<u8> {
    match o {
        Op::Write(v) | Op::Iter(v) => v.clone(),
        Op::Fill(n, b) => vec![*b; *n],
        Op::Zero(n) => vec![0; *n],
        Op::Align(e) => vec![0; idx.next_multiple_of(1 << e) - idx],
    }
}
/// Apply; also returns the items taken from an iterator.
fn apply(w: &mut dyn Write, o: &Op, idx: &mut usize) -> (Flow<Option<Error>>, Option<usize>) {
    match o {
        Op::Write(v) => (w.write(idx, v), None),
        Op::Iter(v) => {
            let mut it = v.iter().copied();
            let f = w.write_iter(idx, &mut it);
            (f, Some(v.len() - it.len()))
        },
        Op::Fill(n, b) => (w.fill(idx, *n, *b), None),
        Op::Zero(n) => (w.zero(idx, *n), None),
        Op::Align(e) => (w.align_exp2(idx, *e), None),
    }
}

/// Writing through arbitrary pieces.
fn write(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(1, size());
    let plan = Plan::make(r, n);
    let mut model = r.bytes(n);
    let mut d = Dst { data: model.clone(), plan: plan.clone(), calls: 0, err: None, committed: 0 };
    let mut idx = r.below(n + 2);
    let mut trace = vec![];
    for _ in 0..r.ops(5) {
        let o = gen_op(r, n + 4);
        let start = idx;
        let want = bytes_of(&o, start);
        d.err = None;
        let (f, taken) = apply(&mut d, &o, &mut idx);
        let ctx = || format!("{o:?} at {start} of {n} with {plan:?}");
        ensure!(idx >= start && idx - start <= want.len(), "position {idx} after {}", ctx());
        let got = idx - start;
        if got > 0 {
            model[start..idx].copy_from_slice(&want[..got]);
        }
        same!(d.data, model, "storage after {}", ctx());
        if let Some(t) = taken {
            same!(t, got, "items taken by {}", ctx());
        }
        match f {
            Flow::Continue(()) => {
                same!(got, want.len(), "bytes stored by {}", ctx());
                same!(d.err, None, "swallowed error in {}", ctx());
            },
            Flow::Break(e) => {
                same!(Some(e), d.err, "error of {}", ctx());
                ensure!(got < want.len(), "error in spite of a full transfer in {}", ctx());
                if plan.fail.is_none() {
                    same!(got, plan.limit.saturating_sub(start).min(want.len()), "bytes before the error in {}", ctx());
                }
            },
        }
        same!(d.committed, 0, "bytes committed by {}", ctx());
        trace.push((o, got));
    }
    // Alignment at the end of the address range.
    let e = if r.bool() { r.range(1, 8) } else { r.range(1, 30) } as u8;
    let start = usize::MAX - r.below((1 << e) - 1);
    let mut i = start;
    let f = d.align_exp2(&mut i, e);
    same!((f, i), (Flow::Break(Some(Error::Overflow)), start), "aligning {start:#x} to 2^{e}");
    c.observe(&(&plan, &trace));
    c.count("writes", trace.len() as u64);
    if size() < 100 {
        c.sample(|| format!("{plan:?} {trace:?}"));
    }
    Ok(())
}

/// A growable buffer: content is only appended, and only by committing.
fn vec(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.below(20);
    let mut model = r.bytes(n);
    let mut v = model.clone();
    if r.bool() {
        v.reserve_exact(r.below(64));
    } else if r.bool() {
        v.shrink_to_fit();
    }
    let mut trace = vec![];
    for _ in 0..r.ops(4) {
        let mut pend: Vec<Option<u8>> = vec![];
        let mut idx = 0;
        for _ in 0..r.below(5) {
            let o = gen_op(r, size() / 2);
            let start = idx;
            let want = bytes_of(&o, idx);
            let (f, _) = apply(&mut v, &o, &mut idx);
            same!(f, Flow::Continue(()), "result of {o:?} at {start}");
            same!(idx, start + want.len(), "position after {o:?} at {start}");
            if pend.len() < idx {
                pend.resize(idx, None);
            }
            for (i, b) in want.iter().enumerate() {
                pend[start + i] = Some(*b);
            }
            same!(v, model, "content before committing, after {o:?} at {start}");
            // A map shows what was written before.
            let init = pend.iter().take_while(|v| v.is_some()).count();
            let a = r.below(init + 1);
            let l = r.below(init - a + 1);
            match Write::map(&mut v, a, l) {
                Flow::Continue(m) => {
                    ensure!(m.len() >= l, "map of {l} at {a} has {}", m.len());
                    for i in 0..l {
                        same!(Some(unsafe { m[i].assume_init() }), pend[a + i], "byte {i} of the map of {l} at {a}, after {o:?} at {start}");
                    }
                },
                f => return Err(format!("map of {l} at {a}: {:?}", f.is_break())),
            }
            trace.push((start, want.len()));
            // Sometimes leave a gap, or go back.
            match r.below(6) {
                0 => idx += r.below(9),
                1 => idx = r.below(idx + 1),
                _ => (),
            }
        }
        let over = usize::MAX - r.below(8);
        let f = Write::map(&mut v, over, 9).is_break();
        ensure!(f, "map of 9 at {over:#x} is refused");
        same!(v.write(&mut { over }, &[1; 9]), Flow::Break(Some(Error::Overflow)), "write of 9 at {over:#x}");
        let init = pend.iter().take_while(|v| v.is_some()).count();
        let k = if r.bool() { init } else { r.below(init + 1) };
        unsafe { Write::commit(&mut v, k) };
        model.extend(pend[..k].iter().map(|v| v.unwrap()));
        same!(v, model, "content after committing {k} of {init}");
        trace.push((usize::MAX, k));
    }
    c.observe(&(n, &trace));
    c.count("commits", trace.iter().filter(|v| v.0 == usize::MAX).count() as u64);
    Ok(())
}

fn run(cx: &mut Ctx) {
    if !cx.miri() {
        cx.section("large", (9_999, 50_000, 0), large);
    }
    cx.section("read", (200_000, 4_000_000, 40), read);
    cx.section("slice", (200_000, 4_000_000, 40), slice);
    cx.section("write", (200_000, 4_000_000, 40), write);
    cx.section("vec", (200_000, 4_000_000, 40), vec);
}

fn main() {
    harness::main(
        "C22",
        "A case is a history of reads or writes over storage with a random mapping plan (piece sizes, surplus, limit, failing request), over a slice, or over a growable buffer; distinct = distinct (plan, positions and lengths transferred).",
        run,
    );
}
