//! D-Bus encoder: refused steps, failing sinks, and abandoned encoders leave
//! no trace.

use harness::dvarmodel::*;
use harness::*;
use osi::mown::Mown;
use std::ops::ControlFlow as Flow;
use std::sync::Arc;
use tmp::fmt::dbus::dvar::{Enc, Format};
use tmp::fmt::dbus::{Error, Sig};
use tmp::io::map;

#[derive(Clone, Debug)]
enum Op { Q(u16), U(u32), T(u64), S(String), O(String), G(String), Var(Arc<Sig>), Arr, Str, Dict, Close }

impl Op {
    fn code(&self) -> u8 {
        match self {
            Op::Q(_) => b'q', Op::U(_) => b'u', Op::T(_) => b't', Op::S(_) => b's', Op::O(_) => b'o', Op::G(_) => b'g',
            Op::Var(_) => b'v', Op::Arr => b'a', Op::Str => b'(', Op::Dict => b'{', Op::Close => b'/',
        }
    }
}

fn apply(e: &mut Enc<'_, '_>, o: &Op) -> Result<(), Option<Error>> {
    let f = match o {
        Op::Q(v) => e.u16(*v),
        Op::U(v) => e.u32(*v),
        Op::T(v) => e.u64(*v),
        Op::S(v) => e.string(v),
        Op::O(v) => e.object(v),
        Op::G(v) => e.signature(v),
        Op::Var(v) => e.variant_with(Mown::new_owned(v.clone())),
        Op::Arr => e.array(),
        Op::Str => e.structure(),
        Op::Dict => e.dict(),
        Op::Close => e.close(),
    };
    match f {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

fn random_op(r: &mut Rng) -> Op {
    match r.below(11) {
        0 => Op::Q(r.u16()),
        1 => Op::U(r.u32()),
        2 => Op::T(r.u64()),
        3 => Op::S(text(r, 9)),
        4 => Op::O(text(r, 9)),
        5 => Op::G(text(r, 9)),
        6 => Op::Var(Sig::arc(*r.pick(&[&b"q"[..], b"(qs)", b"aas", b"v"])).unwrap()),
        7 => Op::Arr,
        8 => Op::Str,
        9 => Op::Dict,
        _ => Op::Close,
    }
}

/// Where the encoder stands: the code of the next type, and whether the
/// innermost container can be closed.
#[derive(Clone, Copy, Debug)]
struct At { next: Option<u8>, close: bool, done: bool }

struct Cx<'a> { log: &'a Log, hostile: usize, faults: usize, abandon: usize, trace: Vec<u8>, left: Option<usize>, stats: [u64; 5] }

const STOP: &str = "\0stop";

/// Everything that must be refused here is refused.
fn provoke(e: &mut Enc<'_, '_>, at: At, s: &[u8], r: &mut Rng, cx: &mut Cx) -> R {
    if r.below(100) >= cx.hostile {
        return Ok(());
    }
    for _ in 0..r.ops(3) {
        let o = random_op(r);
        let ok = if let Op::Close = o { at.close } else { at.next == Some(o.code()) };
        if !ok {
            let got = apply(e, &o);
            same!(got, Err(Some(Error::Mismatch)), "{o:?} at {at:?} in {}", show(s));
            cx.stats[0] += 1;
        }
    }
    // Too long for the encoding.
    if at.next == Some(b'g') && r.chance(1, 3) {
        let n = r.range(256, 300);
        same!(apply(e, &Op::G("x".repeat(n))), Err(Some(Error::DataOverflow)), "signature of {n} bytes");
        cx.stats[1] += 1;
    }
    if at.next == Some(b'v') && r.chance(1, 4) {
        let n = r.range(254, 260);
        let mut t = vec![b'('];
        t.extend(vec![b'q'; n]);
        t.push(b')');
        let g = Sig::arc(&t).map_err(|e| format!("{e:?}"))?;
        same!(apply(e, &Op::Var(g)), Err(Some(Error::DataOverflow)), "variant signature of {} codes", n + 2);
        cx.stats[1] += 1;
    }
    // Nothing to nest, or something else than asked for.
    if at.next.is_none() && r.bool() {
        same!(e.enc().err(), Some(Error::Mismatch), "nested encoder at {at:?} in {}", show(s));
    }
    if r.bool() {
        let mut t = gen_sig(r, 3);
        if at.next.is_some() && r.bool() {
            // Close relatives of what is expected.
            let l = type_len(s);
            t = match r.below(3) { 0 => [b"a", &s[..l]].concat(), 1 => [b"(", &s[..l], b")"].concat(), _ => [b"{s", &s[..l], b"}"].concat() };
        }
        if at.next.is_none() || t != s[..type_len(s)] {
            let g = Sig::new(&t).map_err(|e| format!("{e:?}"))?;
            same!(e.enc_with(Mown::new_borrowed(&g)).err(), Some(Error::Mismatch), "nested encoder for {} at {at:?} in {}", show(&t), show(s));
            cx.stats[0] += 1;
        }
    }
    if !at.done {
        let n = cx.log.commits();
        same!(e.commit(), Err(Error::Pending), "commit at {at:?} in {}", show(s));
        same!(cx.log.commits(), n, "published by a refused commit");
        cx.stats[2] += 1;
    }
    Ok(())
}

/// Perform an operation, with failing sinks until it succeeds.
fn step(e: &mut Enc<'_, '_>, o: &Op, r: &mut Rng, cx: &mut Cx) -> R {
    if let Some(n) = &mut cx.left {
        if *n == 0 {
            return Err(STOP.into());
        }
        *n -= 1;
    }
    while r.below(100) < cx.faults {
        let err = *r.pick(&[None, Some(map::Error::Overflow), Some(map::Error::Exceeded)]);
        let h = cx.log.hits();
        cx.log.arm(r.below(5), err);
        let got = apply(e, o);
        cx.log.disarm();
        if cx.log.hits() == h {
            same!(got, Ok(()), "{o:?}");
            cx.trace.push(o.code());
            return Ok(());
        }
        same!(got, Err(err.map(Error::Io)), "{o:?} with a failing sink");
        cx.stats[3] += 1;
    }
    same!(apply(e, o), Ok(()), "{o:?}");
    cx.trace.push(o.code());
    Ok(())
}

/// Start a nested encoder, write some other value of the type, and drop it.
fn abandon(e: &mut Enc<'_, '_>, s: &[u8], r: &mut Rng, cx: &mut Cx) -> R {
    let l = type_len(s);
    let s = &s[..l];
    let mut b = 8;
    let v = gen_value(r, s, &mut b, 2).0;
    let mut sub = e.enc().map_err(|e| format!("nested encoder: {e:?}"))?;
    let save = (cx.left, cx.abandon);
    cx.left = if r.chance(1, 4) { None } else { Some(r.below(8)) };
    cx.abandon /= 3;
    cx.trace.push(b'[');
    let x = drive(&mut sub, At { next: None, close: false, done: false }, s, &v, r, cx, 10);
    (cx.left, cx.abandon) = save;
    cx.trace.push(b']');
    cx.stats[4] += 1;
    match x {
        Err(m) if m == STOP => Ok(()),
        x => x,
    }
}

fn drive(e: &mut Enc<'_, '_>, up: At, s: &[u8], v: &V, r: &mut Rng, cx: &mut Cx, rate: usize) -> R {
    let at = At { next: Some(s[0]), close: up.close, done: false };
    provoke(e, at, s, r, cx)?;
    if r.below(100) < cx.abandon {
        abandon(e, s, r, cx)?;
        provoke(e, at, s, r, cx)?;
    }
    if r.below(100) < rate {
        let mut sub = e.enc().map_err(|e| format!("nested encoder: {e:?}"))?;
        cx.trace.push(b'<');
        drive(&mut sub, At { next: None, close: false, done: false }, s, v, r, cx, rate / 2)?;
        provoke(&mut sub, At { next: None, close: false, done: true }, s, r, cx)?;
        let n = cx.log.commits();
        same!(sub.commit(), Ok(()), "nested commit in {}", show(s));
        if r.chance(1, 3) {
            same!(sub.commit(), Ok(()), "another nested commit in {}", show(s));
        }
        provoke(&mut sub, At { next: None, close: false, done: true }, s, r, cx)?;
        same!(cx.log.commits(), n, "published by a nested commit in {}", show(s));
        cx.trace.push(b'>');
        return Ok(());
    }
    let inner = At { next: None, close: false, done: false };
    let full = At { next: None, close: true, done: false };
    match v {
        V::Q(x) => step(e, &Op::Q(*x), r, cx)?,
        V::U(x) => step(e, &Op::U(*x), r, cx)?,
        V::T(x) => step(e, &Op::T(*x), r, cx)?,
        V::S(x) => step(e, &Op::S(x.clone()), r, cx)?,
        V::O(x) => step(e, &Op::O(x.clone()), r, cx)?,
        V::G(x) => step(e, &Op::G(x.clone()), r, cx)?,
        V::Var(g, sig, x) => {
            step(e, &Op::Var(sig.clone()), r, cx)?;
            drive(e, inner, g, x, r, cx, rate)?;
            provoke(e, full, s, r, cx)?;
            step(e, &Op::Close, r, cx)?;
        },
        V::Arr(xs) => {
            step(e, &Op::Arr, r, cx)?;
            for x in xs {
                drive(e, full, &s[1..], x, r, cx, rate)?;
            }
            provoke(e, At { next: Some(s[1]), close: true, done: false }, &s[1..], r, cx)?;
            step(e, &Op::Close, r, cx)?;
        },
        V::Str(xs) => {
            step(e, &Op::Str, r, cx)?;
            let mut i = 1;
            for x in xs {
                drive(e, inner, &s[i..], x, r, cx, rate)?;
                i += type_len(&s[i..]);
            }
            provoke(e, full, s, r, cx)?;
            step(e, &Op::Close, r, cx)?;
        },
        V::Dict(k, x) => {
            step(e, &Op::Dict, r, cx)?;
            drive(e, inner, &s[1..], k, r, cx, rate)?;
            drive(e, inner, &s[1 + type_len(&s[1..])..], x, r, cx, rate)?;
            provoke(e, full, s, r, cx)?;
            step(e, &Op::Close, r, cx)?;
        },
    }
    Ok(())
}

fn value(r: &mut Rng) -> (Vec<u8>, V) {
    let n = if cfg!(miri) { r.range(1, 6) } else { match r.below(10) { 0 => r.range(20, 45), 1..=3 => r.range(1, 20), _ => r.range(1, 8) } };
    let s = gen_sig(r, n);
    let mut b = if cfg!(miri) { 5 } else { 40 };
    let v = gen_value(r, &s, &mut b, 0).0;
    (s, v)
}

fn history(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (s, v) = value(r);
    let be = r.bool();
    let sig = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut want = vec![];
    marshal(&mut want, be, &s, &v);
    let mut sink = Sink::new(r);
    let log = sink.log.clone();
    let mut cx = Cx { log: &log, hostile: *r.pick(&[0, 30, 60]), faults: *r.pick(&[0, 20, 50]), abandon: *r.pick(&[0, 10, 30]), trace: vec![], left: None, stats: [0; 5] };
    let quit = r.chance(1, 10);
    {
        let mut e = Enc::with(Mown::new_borrowed(&sig), if be { Format::DVarBe } else { Format::DVarLe }, &mut sink);
        let top = At { next: None, close: false, done: false };
        if quit {
            cx.left = Some(r.below(6));
        }
        match drive(&mut e, top, &s, &v, r, &mut cx, 15) {
            Err(m) if m == STOP => (),
            Err(m) => return Err(format!("{m} ({} {v:?}, after {})", show(&s), show(&cx.trace))),
            Ok(()) => {
                provoke(&mut e, At { done: true, ..top }, &s, r, &mut cx)?;
                same!(log.commits(), 0, "published before commit");
                if !quit {
                    same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
                    provoke(&mut e, At { done: true, ..top }, &s, r, &mut cx)?;
                    if r.bool() {
                        same!(e.commit(), Ok(()), "another commit of {} {v:?}", show(&s));
                    }
                }
            },
        }
    }
    if quit {
        same!((log.commits(), log.committed()), (0, 0), "published without commit");
    } else {
        same!(log.committed(), want.len(), "bytes published of {} {v:?}", show(&s));
        ensure!(sink.data[..want.len()] == want, "{} {v:?} after {}\n  observed: {}\n  expected: {}", show(&s), show(&cx.trace), show(&sink.data[..want.len()]), show(&want));
    }
    let (trace, st) = (cx.trace.clone(), cx.stats);
    for (n, k) in ["refused steps", "overlong data", "refused commits", "sink failures", "abandoned encoders"].into_iter().zip(st) {
        c.count(n, k);
    }
    c.observe(&(&s, &trace));
    c.sample(|| format!("{} as {}", show(&s), show(&trace)));
    Ok(())
}

/// Every map request of one encoding fails once.
fn faults(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (s, v) = value(r);
    let be = r.bool();
    let sig = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut want = vec![];
    marshal(&mut want, be, &s, &v);
    let err = *r.pick(&[None, Some(map::Error::Overflow), Some(map::Error::Exceeded)]);
    let shape = r.u64();
    let cap = if cfg!(miri) { 6 } else { 200 };
    let mut k = 0;
    loop {
        let mut sink = Sink::new(&mut Rng::new(shape, 0, 0));
        let log = sink.log.clone();
        log.arm(k, err);
        {
            let mut e = Enc::with(Mown::new_borrowed(&sig), if be { Format::DVarBe } else { Format::DVarLe }, &mut sink);
            let mut list = vec![];
            flatten(&s, &v, &mut list);
            for o in &list {
                let h = log.hits();
                let got = apply(&mut e, o);
                if log.hits() == h {
                    same!(got, Ok(()), "{o:?}");
                } else {
                    same!(got, Err(err.map(Error::Io)), "{o:?} with map request {k} failing");
                    same!(e.commit(), Err(Error::Pending), "commit after a failed {o:?}");
                    same!(apply(&mut e, o), Ok(()), "{o:?} again after map request {k} failed");
                }
            }
            same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
        }
        same!((log.commits(), log.committed()), (1, want.len()), "published bytes of {} {v:?} with map request {k} failing", show(&s));
        ensure!(sink.data[..want.len()] == want, "{} {v:?} with map request {k} failing\n  observed: {}\n  expected: {}", show(&s), show(&sink.data[..want.len()]), show(&want));
        c.st.evaluations += 1;
        if log.hits() == 0 || k >= cap {
            break;
        }
        k += 1;
    }
    c.count("enumerated failures", k as u64);
    c.observe(&("faults", &s, k));
    Ok(())
}

fn flatten(s: &[u8], v: &V, out: &mut Vec<Op>) {
    match v {
        V::Q(x) => out.push(Op::Q(*x)),
        V::U(x) => out.push(Op::U(*x)),
        V::T(x) => out.push(Op::T(*x)),
        V::S(x) => out.push(Op::S(x.clone())),
        V::O(x) => out.push(Op::O(x.clone())),
        V::G(x) => out.push(Op::G(x.clone())),
        V::Var(g, sig, x) => {
            out.push(Op::Var(sig.clone()));
            flatten(g, x, out);
            out.push(Op::Close);
        },
        V::Arr(xs) => {
            out.push(Op::Arr);
            xs.iter().for_each(|x| flatten(&s[1..], x, out));
            out.push(Op::Close);
        },
        V::Str(xs) => {
            out.push(Op::Str);
            xs.iter().for_each(|x| flatten(s, x, out));
            out.push(Op::Close);
        },
        V::Dict(k, x) => {
            out.push(Op::Dict);
            flatten(s, k, out);
            flatten(s, x, out);
            out.push(Op::Close);
        },
    }
}

fn run(cx: &mut Ctx) {
    cx.section("history", (120_000, 3_000_000, 16), history);
    cx.section("faults", (4_000, 100_000, 4), faults);
}

fn main() {
    harness::main(
        "C19",
        "A case is one value encoded with wrong operations, early commits, failing sinks and abandoned nested encoders mixed in, or with each map request of the sink failing in turn; distinct = distinct (signature, successful call structure) or (signature, failure count).",
        run,
    );
}
