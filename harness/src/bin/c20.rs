//! D-Bus decoder: round trips, refused reads, failing sources and abandoned
//! decoders.

use harness::dvarmodel::*;
use harness::*;
use osi::mown::Mown;
use std::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::{Dec, Enc, Format};
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map;

/// A signature the decoder can handle: numbers, texts, and arrays. Elements of
/// other types only occur in arrays that are empty.
fn sig(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![b'a'; *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4])];
    if !s.is_empty() && r.chance(1, 6) {
        let n = r.range(1, 5);
        s.extend(gen_sig(r, n));
    } else {
        s.push(*r.pick(b"qsg"));
    }
    s
}

/// A value of such a signature.
fn value(r: &mut Rng, s: &[u8], budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    match s[0] {
        b'q' => V::Q(r.edge64() as u16),
        b's' => V::S(text(r, 40)),
        b'g' => V::G(text(r, 255)),
        b'a' => {
            let n = if *budget == 0 || !matches!(s[1], b'a' | b'q' | b's' | b'g') { 0 } else { match r.below(8) { 0 => 0, 1 => 1, 2 => r.below(12), _ => r.below(5) } };
            V::Arr((0..n).map(|_| value(r, &s[1..], budget)).collect())
        },
        _ => unreachable!(),
    }
}

fn encode(s: &[u8], v: &V, e: &mut Enc) -> Result<(), String> {
    let f = match v {
        V::Q(x) => e.u16(*x),
        V::S(x) => e.string(x),
        V::G(x) => e.signature(x),
        V::Arr(xs) => {
            if let Flow::Break(x) = e.array() {
                return Err(format!("array: {x:?}"));
            }
            for x in xs {
                encode(&s[1..], x, e)?;
            }
            e.close()
        },
        _ => unreachable!(),
    };
    match f {
        Flow::Continue(_) => Ok(()),
        Flow::Break(x) => Err(format!("encoding: {x:?}")),
    }
}

/// The targets of reads, with what they hold otherwise.
struct Cells { q: u16, s: String }

const OPS: &[u8] = b"qsga/";

fn apply(d: &mut Dec<'_, '_>, op: u8, t: &mut Cells) -> Result<(), Option<Error>> {
    let f = match op {
        b'q' => d.u16(&mut t.q),
        b's' => d.string(&mut t.s),
        b'g' => d.signature(&mut t.s),
        b'a' => d.array(),
        _ => d.close(),
    };
    match f {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

struct Cx<'a> { log: Option<&'a Log>, hostile: usize, faults: usize, abandon: usize, left: Option<usize>, trace: Vec<u8>, stats: [u64; 4] }

const STOP: &str = "\0stop";

/// Where the decoder stands: the type that comes next, whether the innermost
/// array can be closed, and whether the value is complete.
#[derive(Clone, Copy, Debug)]
struct At<'a> { next: Option<&'a [u8]>, close: bool, more: bool, done: bool }

fn mark(r: &mut Rng) -> Cells { Cells { q: r.u16(), s: text(r, 9) } }

fn untouched(op: u8, t: &Cells, q: u16, s: &str) -> R {
    same!((t.q, t.s.as_str()), (q, s), "target of a refused {:?}", op as char);
    Ok(())
}

fn provoke(d: &mut Dec<'_, '_>, at: At, r: &mut Rng, cx: &mut Cx) -> R {
    same!(d.more(), at.more, "more data at {at:?}");
    if r.below(100) >= cx.hostile {
        return Ok(());
    }
    for _ in 0..r.range(1, 3) {
        let op = *r.pick(OPS);
        let ok = if op == b'/' { at.close } else { at.next.map(|v| v[0]) == Some(op) };
        if !ok {
            let mut t = mark(r);
            let (q, s) = (t.q, t.s.clone());
            same!(apply(d, op, &mut t), Err(Some(Error::Mismatch)), "{:?} at {at:?}", op as char);
            untouched(op, &t, q, &s)?;
            cx.stats[0] += 1;
        }
    }
    if at.next.is_none() && r.bool() {
        same!(d.dec().err(), Some(Error::Mismatch), "nested decoder at {at:?}");
    }
    if r.bool() {
        let t = match (at.next, r.below(3)) { (Some(s), 0) => [b"a", s].concat(), (Some(s), 1) => [b"(", s, b")"].concat(), _ => sig(r) };
        if at.next != Some(&t) {
            let g = Sig::new(&t).map_err(|e| format!("{e:?}"))?;
            same!(d.dec_with(Mown::new_borrowed(&g)).err(), Some(Error::Mismatch), "nested decoder for {} at {at:?}", show(&t));
            cx.stats[0] += 1;
        }
    }
    if !at.done {
        same!(d.commit(), Err(Error::Pending), "commit at {at:?}");
        cx.stats[1] += 1;
    }
    same!(d.more(), at.more, "more data at {at:?} after refused operations");
    Ok(())
}

/// Perform an operation, with failing sources until it succeeds.
fn step(d: &mut Dec<'_, '_>, op: u8, r: &mut Rng, cx: &mut Cx) -> Result<Cells, String> {
    if let Some(n) = &mut cx.left {
        if *n == 0 {
            return Err(STOP.into());
        }
        *n -= 1;
    }
    let mut t = mark(r);
    let (q, s) = (t.q, t.s.clone());
    if let Some(log) = cx.log {
        while r.below(100) < cx.faults {
            let err = *r.pick(&[None, Some(map::Error::Overflow), Some(map::Error::Exceeded)]);
            let (h, more) = (log.hits(), d.more());
            log.arm(r.below(8), err);
            let got = apply(d, op, &mut t);
            log.disarm();
            if log.hits() == h {
                same!(got, Ok(()), "{:?}", op as char);
                cx.trace.push(op);
                return Ok(t);
            }
            same!(got, Err(err.map(Error::Io)), "{:?} with a failing source", op as char);
            untouched(op, &t, q, &s)?;
            same!(d.more(), more, "more data after a failed {:?}", op as char);
            cx.stats[2] += 1;
        }
    }
    same!(apply(d, op, &mut t), Ok(()), "{:?}", op as char);
    cx.trace.push(op);
    Ok(t)
}

fn nested<'a>(d: &'a mut Dec<'_, '_>, s: &[u8], r: &mut Rng) -> Result<Dec<'a, 'a>, String> {
    if r.bool() {
        d.dec().map_err(|e| format!("nested decoder: {e:?}"))
    } else {
        let g = Sig::new(s).map_err(|e| format!("{e:?}"))?;
        d.dec_with(Mown::new_borrowed(&g)).map_err(|e| format!("nested decoder for {}: {e:?}", show(s)))
    }
}

fn drive(d: &mut Dec<'_, '_>, close: bool, more: bool, s: &[u8], v: &V, r: &mut Rng, cx: &mut Cx, rate: usize) -> R {
    let at = At { next: Some(s), close, more, done: false };
    let root = At { next: None, close: false, more: false, done: true };
    provoke(d, at, r, cx)?;
    if r.below(100) < cx.abandon {
        let save = (cx.left, cx.abandon);
        cx.left = if r.chance(1, 4) { None } else { Some(r.below(8)) };
        cx.abandon /= 3;
        cx.trace.push(b'[');
        {
            let mut sub = nested(d, s, r)?;
            match drive(&mut sub, false, false, s, v, r, cx, 10) {
                Err(m) if m == STOP => (),
                x => x?,
            }
        }
        (cx.left, cx.abandon) = save;
        cx.trace.push(b']');
        cx.stats[3] += 1;
        provoke(d, at, r, cx)?;
    }
    if r.below(100) < rate {
        let mut sub = nested(d, s, r)?;
        cx.trace.push(b'<');
        drive(&mut sub, false, false, s, v, r, cx, rate / 2)?;
        provoke(&mut sub, root, r, cx)?;
        same!(sub.commit(), Ok(()), "nested commit of {}", show(s));
        if r.chance(1, 3) {
            same!(sub.commit(), Ok(()), "another nested commit of {}", show(s));
            provoke(&mut sub, root, r, cx)?;
        }
        cx.trace.push(b'>');
        return Ok(());
    }
    match v {
        V::Q(x) => {
            let t = step(d, b'q', r, cx)?;
            same!(t.q, *x, "number");
        },
        V::S(x) => {
            let t = step(d, b's', r, cx)?;
            same!(&t.s, x, "text");
        },
        V::G(x) => {
            let t = step(d, b'g', r, cx)?;
            same!(&t.s, x, "signature text");
        },
        V::Arr(xs) => {
            step(d, b'a', r, cx)?;
            for x in xs {
                drive(d, true, true, &s[1..], x, r, cx, rate)?;
            }
            provoke(d, At { next: Some(&s[1..]), close: true, more: false, done: false }, r, cx)?;
            step(d, b'/', r, cx)?;
        },
        _ => unreachable!(),
    }
    Ok(())
}

fn random(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sig(r);
    let mut b = if cfg!(miri) { 6 } else { 60 };
    let v = value(r, &s, &mut b);
    check(c, s, v, false)
}

/// Long texts, long arrays, and deep nesting.
fn large(c: &mut Case) -> R {
    let r = &mut c.rng;
    let long = |r: &mut Rng| { let n = *r.pick(&[255, 256, 257, 4095, 4096, 65535, 65536, 70000]) + r.below(9); "y".repeat(n) };
    let (s, v) = match r.below(5) {
        4 if r.chance(1, 10) => {
            // Megabytes.
            let n = *r.pick(&[1usize << 20, (1 << 20) + 8, 1_500_000, 1 << 24, (1 << 24) + 1]);
            match r.below(3) {
                0 => (b"as".to_vec(), V::Arr(vec![V::S("z".repeat(n)), V::S(text(r, 9))])),
                1 => { let n = n.min(1_500_000) / 2; (b"aq".to_vec(), V::Arr((0..n).map(|_| V::Q(r.u16())).collect())) },
                _ => { let n = n.min(1_500_000) / 8; (b"aaq".to_vec(), V::Arr((0..n).map(|_| V::Arr(vec![V::Q(r.u16())])).collect())) },
            }
        },
        0 | 4 => (b"s".to_vec(), V::S(long(r))),
        1 => (b"as".to_vec(), V::Arr((0..r.range(1, 4)).map(|_| V::S(if r.bool() { long(r) } else { text(r, 9) })).collect())),
        2 => {
            let n = *r.pick(&[255usize, 256, 1000, 8192, 33000]);
            (b"aq".to_vec(), V::Arr((0..n).map(|_| V::Q(r.u16())).collect()))
        },
        _ => {
            let n = *r.pick(&[31usize, 32, 33, 63, 64, 65, 128, 254, 255, 256, 300]);
            let mut v = V::G(text(r, 255));
            for _ in 0..n {
                // Some levels have neighbours in front or behind.
                let (a, b) = match r.below(8) { 0 => (1, 0), 1 => (0, 1), 2 if r.chance(1, 4) => (r.below(9), r.below(9)), _ => (0, 0) };
                let other = match v { V::G(_) => V::G("x".into()), _ => V::Arr(vec![]) };
                let mut xs = vec![other.clone(); a];
                xs.push(v);
                xs.extend(vec![other; b]);
                v = V::Arr(xs);
            }
            ([vec![b'a'; n], vec![b'g']].concat(), v)
        },
    };
    check(c, s, v, true).map_err(|m| if m.len() > 3000 { format!("{} ...", m.chars().take(3000).collect::<String>()) } else { m })
}

fn check(c: &mut Case, s: Vec<u8>, v: V, large: bool) -> R {
    let r = &mut c.rng;
    let be = r.bool();
    let form = if be { Format::DVarBe } else { Format::DVarLe };
    let g = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut data = vec![];
    if r.bool() {
        let mut e = Enc::with(Mown::new_borrowed(&g), form, &mut data);
        encode(&s, &v, &mut e)?;
        same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
    } else {
        marshal(&mut data, be, &s, &v);
    }
    // What follows a value is not part of it.
    let n = r.below(6);
    let tail = r.bytes(n);
    data.extend(tail);
    let bytes = data.clone();
    let mut src = Source::new(r, data.clone());
    let log = src.log.clone();
    let piecewise = r.chance(2, 3);
    let mut cx = Cx { log: piecewise.then_some(&log), hostile: *r.pick(&[0, 30, 60]), faults: *r.pick(&[0, 20, 50]), abandon: if large { 0 } else { *r.pick(&[0, 10, 30]) }, left: None, trace: vec![], stats: [0; 4] };
    let mut plain = Plain(data);
    {
        let read: &mut dyn map::Read = if piecewise { &mut src } else { &mut plain };
        let mut d = match (be, r.bool()) {
            (true, true) => Dec::new_be(&g, read),
            (false, true) => Dec::new_le(&g, read),
            _ if r.bool() => {
                let e = ende::Dec::new(&g, if be { ende::Format::DVarBe } else { ende::Format::DVarLe }, read);
                same!(e.more(), false, "more data before the first read");
                let ende::Dec::DVar(d) = e;
                d
            },
            _ => Dec::with(Mown::new_borrowed(&g), form, read),
        };
        let root = At { next: None, close: false, more: false, done: true };
        let mut go = || -> R {
            drive(&mut d, false, false, &s, &v, r, &mut cx, if large { 1 } else { 15 })?;
            provoke(&mut d, root, r, &mut cx)?;
            same!(d.commit(), Ok(()), "commit");
            provoke(&mut d, root, r, &mut cx)?;
            Ok(())
        };
        go().map_err(|m| format!("{m}\n  {} {v:?} as {} ({})", show(&s), show(&bytes), if be { "big endian" } else { "little endian" }))?;
    }
    let (trace, st) = (cx.trace.clone(), cx.stats);
    for (n, k) in ["refused reads", "refused commits", "source failures", "abandoned decoders"].into_iter().zip(st) {
        c.count(n, k);
    }
    c.observe(&(&s, &trace));
    if large {
        return Ok(());
    }
    c.sample(|| format!("{} from {} as {}", show(&s), show(&bytes), show(&trace)));
    Ok(())
}

/// The format-independent decoder tells and ends arrays like the specific one.
fn generic(c: &mut Case) -> R {
    let r = &mut c.rng;
    let be = r.bool();
    let n = if cfg!(miri) { r.below(4) } else { r.len(60) };
    let rows: Vec<Vec<u16>> = (0..n).map(|_| { let k = r.below(5); (0..k).map(|_| r.u16()).collect() }).collect();
    let g = Sig::new(b"aaq").unwrap();
    let v = V::Arr(rows.iter().map(|w| V::Arr(w.iter().map(|q| V::Q(*q)).collect())).collect());
    let mut data = vec![];
    marshal(&mut data, be, b"aaq", &v);
    let mut read = Plain(data);
    let mut e = ende::Dec::new(&g, if be { ende::Format::DVarBe } else { ende::Format::DVarLe }, &mut read);
    macro_rules! d { () => {{ let ende::Dec::DVar(d) = &mut e; d }} }
    ensure!(e.close().is_break(), "closed without an open container");
    ensure!(d!().array().is_continue(), "outer array");
    for (i, w) in rows.iter().enumerate() {
        same!(e.more(), true, "more before row {i} of {rows:?}");
        ensure!(d!().array().is_continue(), "array {i}");
        for (j, q) in w.iter().enumerate() {
            same!(e.more(), true, "more before element {j} of row {i} of {rows:?}");
            let mut x = 0;
            ensure!(d!().u16(&mut x).is_continue(), "element {j} of row {i}");
            same!(x, *q, "element {j} of row {i}");
        }
        same!(e.more(), false, "more after row {i} of {rows:?}");
        ensure!(e.close().is_continue(), "end of row {i}");
    }
    same!(e.more(), false, "more after {rows:?}");
    ensure!(e.close().is_continue(), "end of {rows:?}");
    ensure!(e.close().is_break(), "closed once more");
    same!(d!().commit(), Ok(()), "commit");
    c.observe(&rows);
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("generic", (4_000, 60_000, 3), generic);
    cx.section("decode", (200_000, 5_000_000, 40), random);
    cx.section("large", (1500, 20_000, 0), large);
}

fn main() {
    harness::main(
        "C20",
        "A case is one encoded value read back with wrong reads, early commits, failing sources and abandoned nested decoders mixed in; distinct = distinct (signature, successful call structure).",
        run,
    );
}
