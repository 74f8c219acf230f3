//! OS strings, write bridges, and uncaught errors.

use harness::*;
use osi::compat::OsStr;
#[cfg(feature = "std")]
use osi::compat::Write;
use osi::error::Uncaught;
use std::error::Error;
#[cfg(feature = "std")]
use std::io;
#[cfg(feature = "std")]
use std::os::unix::ffi::OsStrExt;

fn bytes(r: &mut Rng) -> Vec<u8> {
    const P: &[&[u8]] = &[b"a", b"/", b"\0", "\u{e4}".as_bytes(), "\u{20ac}".as_bytes(), "\u{10ffff}".as_bytes(), b"\xff", b"\xc3", b"\xe2\x82",
        b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\x80", b"\xf0\x9f\x98", b"zz", b"\"", b"\n", b"\xef\xbb\xbf", b"\xff\xfe", b"\xef\xbf\xbd", b"\r\n", b"\\", b"C:", b"~", b"\x1b[0m", b"\x7f"];
    let mut v = vec![];
    for _ in 0..r.below(6) {
        if r.chance(1, 8) { let b = r.bytes(3); v.extend_from_slice(&b) } else { let p = if r.chance(1, 3) { &P[..6] } else { P }; v.extend_from_slice(r.pick(p)) }
    }
    v
}

fn osstr(c: &mut Case) -> R {
    let (mut a, mut b) = (bytes(&mut c.rng), bytes(&mut c.rng));
    if c.idx % 200 == 11 {
        // Long ones that share a prefix.
        let n = *c.rng.pick(&[15, 16, 17, 63, 64, 128, 255, 256, 257, 1024, 4096, 8192, 70_000]);
        let p = c.rng.pick(&["a", "\u{e4}", "\u{20ac}"]).repeat(n).into_bytes();
        a = [&p[..], &a].concat();
        b = [&p[..], &b].concat();
        c.count("long", 1);
    }
    #[cfg(not(feature = "std"))]
    let (x, y) = unsafe { (OsStr::from_encoded_bytes_unchecked(&a), OsStr::from_encoded_bytes_unchecked(&b)) };
    #[cfg(feature = "std")]
    let (x, y) = {
        let sa = std::ffi::OsStr::from_bytes(&a);
        let sb = std::ffi::OsStr::from_bytes(&b);
        let x = OsStr::from_osstr(sa);
        let y: &OsStr = sb.into();
        same!(x.as_osstr(), sa, "native OS string of {}", show(&a));
        let r: &std::ffi::OsStr = x.as_ref();
        same!(r, sa, "native OS string of {}", show(&a));
        (x, y)
    };
    same!(x.as_encoded_bytes(), &a[..], "bytes");
    same!(x.as_encoded_bytes().as_ptr(), a.as_ptr(), "no copy");
    same!(unsafe { OsStr::from_encoded_bytes_unchecked(&a) }.as_encoded_bytes(), &a[..], "raw bytes");
    same!(x.to_str(), std::str::from_utf8(&a), "text of {}", show(&a));
    same!(x.to_string_lossy(), String::from_utf8_lossy(&a), "lossy text of {}", show(&a));
    match (OsStr::from_utf8(&a), std::str::from_utf8(&a)) {
        (Ok(o), Ok(t)) => {
            same!(o.as_encoded_bytes(), &a[..], "checked bytes");
            same!(o.to_str(), Ok(t), "checked text");
            same!(OsStr::from_str(t).as_encoded_bytes(), &a[..], "bytes of text");
            let f: &OsStr = t.into();
            same!(f.as_encoded_bytes(), &a[..], "bytes of converted text");
            same!(f.to_string_lossy(), t, "lossy text of text");
            ensure!(f == x, "equal OS strings from text and bytes");
        },
        (Err(e), Err(f)) => same!(e, f, "refusal of {}", show(&a)),
        (o, t) => return Err(format!("{}: accepted {} vs. valid {}", show(&a), o.is_ok(), t.is_ok())),
    }
    same!(x == y, a == b, "equality of {} and {}", show(&a), show(&b));
    same!(x.cmp(y), a.cmp(&b), "order of {} and {}", show(&a), show(&b));
    same!(x.partial_cmp(y), Some(a.cmp(&b)), "order of {} and {}", show(&a), show(&b));
    ensure!(!format!("{x:?}").is_empty(), "debug");
    c.observe(&(&a, a.cmp(&b)));
    c.sample(|| show(&a));
    Ok(())
}

#[cfg(feature = "std")]
mod bridges {
use super::*;

/// A sink with short writes, interruptions, and one failing call.
struct Sink { out: Vec<u8>, calls: usize, short: Rng, mode: u8, fail_at: Option<(usize, u8)>, failed: bool, after: usize }
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
        }
        let n = self.calls;
        self.calls += 1;
        if let Some((at, kind)) = self.fail_at {
            if n == at {
                self.failed = true;
                return match kind {
                    0 => Ok(0),
                    1 => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
                    2 => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                    _ => Err(io::Error::other("custom")),
                };
            }
        }
        let k = match self.mode {
            0 => b.len(),
            1 => 1.min(b.len()),
            2 => {
                if self.short.chance(1, 3) {
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                self.short.range(1, b.len().max(1)).min(b.len())
            },
            _ => self.short.range(1, b.len().max(1)).min(b.len()),
        };
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn sink(r: &mut Rng) -> Sink {
    Sink { out: vec![], calls: 0, short: Rng::new(r.u64(), 0, 0), mode: r.below(4) as u8, fail_at: None, failed: false, after: 0 }
}

/// One formatting operation, applied to any sink.
#[derive(Clone, Debug, Hash)]
enum Op { Str(String), Char(char), Num(i64, String), Pad(String, usize), Dbg(String), Multi(u8, String, i32), Lit(u8) }
fn gen_op(r: &mut Rng) -> Op {
    let s = |r: &mut Rng| -> String { (0..r.below(5)).map(|_| *r.pick(&["", "x", "\u{e4}\u{20ac}", "{}", "\n", "long text ", "\u{1f600}", "\"", "=", "-", "\\", "_", "9", "Q", "\0", "\r\n", "\u{7f}", "\u{feff}"])).collect() };
    match r.below(8) {
        6 => Op::Lit(r.below(4) as u8),
        // Larger than common stack and pipe buffers.
        7 if r.chance(1, 20) => Op::Str(r.pick(&["x", "\u{20ac}", "{}"]).repeat(*r.pick(&[31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1024, 4096, 8192, 70_000]))),
        0 => Op::Str(s(r)),
        1 => Op::Char(*r.pick(&['a', '\u{e4}', '\u{10ffff}', '\0'])),
        2 => Op::Num(r.edge64() as i64, s(r)),
        3 => Op::Pad(s(r), r.below(20)),
        4 => Op::Dbg(s(r)),
        _ => Op::Multi(r.u8(), s(r), r.u32() as i32),
    }
}
fn apply<W: std::fmt::Write>(w: &mut W, o: &Op) -> std::fmt::Result {
    match o {
        Op::Str(s) => w.write_str(s),
        Op::Char(c) => w.write_char(*c),
        Op::Num(n, s) => write!(w, "{n}{s}{n:#x}"),
        Op::Pad(s, n) => write!(w, "<{s:>n$}|{s:*^n$}>"),
        Op::Dbg(s) => write!(w, "{s:?}{:#?}", (1, s)),
        // Constant format strings may take a different path than others.
        Op::Lit(0) => write!(w, "literal"),
        Op::Lit(1) => w.write_fmt(format_args!("\u{e4} long literal text without any argument {{}}")),
        Op::Lit(2) => write!(w, ""),
        Op::Lit(_) => writeln!(w, "line"),
        Op::Multi(a, s, n) => w.write_fmt(format_args!("{a:08b}{s}{n:+}{}", s.len())),
    }
}

pub fn bridge(c: &mut Case) -> R {
    let ops: Vec<Op> = (0..c.rng.range(1, 6)).map(|_| gen_op(&mut c.rng)).collect();
    let mut want = String::new();
    let mut ends = vec![];
    for o in &ops {
        apply(&mut want, o).unwrap();
        ends.push(want.len());
    }
    // Without faults everything arrives, whatever the sink's write sizes.
    let mut w = Write(sink(&mut c.rng));
    for o in &ops {
        same!(apply(&mut w, o), Ok(()), "result of {o:?}");
    }
    same!(show(&w.0.out), show(want.as_bytes()), "sink contents of {ops:?}");
    let calls = w.0.calls;
    // The bridge over references and buffers behaves alike.
    let mut v: Vec<u8> = vec![];
    for o in &ops {
        same!(apply(&mut Write(&mut v), o), Ok(()), "result of {o:?}");
    }
    same!(show(&v), show(want.as_bytes()), "buffer contents of {ops:?}");
    // Each sink call may be the failing one.
    for at in 0..calls.min(12) {
        let mut s = sink(&mut c.rng);
        s.mode = c.rng.below(2) as u8;
        let kind = c.rng.below(4) as u8;
        s.fail_at = Some((at, kind));
        let mut w = Write(s);
        for (i, o) in ops.iter().enumerate() {
            let r = apply(&mut w, o);
            same!(r.is_err(), w.0.failed, "result of {o:?} with failure kind {kind} at call {at}");
            same!(w.0.after, 0, "sink calls after failure kind {kind} at call {at} in {o:?}");
            if w.0.failed {
                let lo = if i == 0 { 0 } else { ends[i - 1] };
                ensure!(want.as_bytes().starts_with(&w.0.out) && (lo..=ends[i]).contains(&w.0.out.len()), "sink holds {} of {want:?} after a failure at call {at}", show(&w.0.out));
                break;
            }
            same!(w.0.out.len(), ends[i], "bytes written by {o:?}");
        }
        c.count("faults", w.0.failed as u64);
        c.evals(1);
    }
    // A bounded buffer fails when full.
    let cap = c.rng.below(want.len() + 2);
    let mut buf = vec![0u8; cap];
    let mut w = Write(&mut buf[..]);
    let mut ok = true;
    for o in &ops {
        ok = ok && apply(&mut w, o).is_ok();
    }
    let left = w.0.len();
    same!(ok, want.len() <= cap, "result with a buffer of {cap} for {} bytes", want.len());
    let n = want.len().min(cap);
    if ok {
        same!(cap - left, n, "bytes in a bounded buffer");
        same!(show(&buf[..n]), show(&want.as_bytes()[..n]), "bounded buffer contents");
    }
    c.observe(&ops);
    c.sample(|| format!("{ops:?}"));
    Ok(())
}
}

/// Errors with an arbitrary cause chain.
#[derive(Clone, Debug, PartialEq)]
struct E { text: String, cause: Option<Box<E>> }
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.text) }
}
impl Error for E {
    fn source(&self) -> Option<&(dyn Error + 'static)> { self.cause.as_deref().map(|v| v as &(dyn Error + 'static)) }
}

/// A sink with a limited number of writes.
struct Stop { out: String, left: usize, after: u64, failed: bool }
impl std::fmt::Write for Stop {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.after += self.failed as u64;
        if self.left == 0 {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

/// An error with changing text, counting its instances.
struct Tick { n: std::cell::Cell<u32>, live: std::rc::Rc<std::cell::Cell<u32>> }
impl Tick {
    fn new(live: &std::rc::Rc<std::cell::Cell<u32>>) -> Tick {
        live.set(live.get() + 1);
        Tick { n: Default::default(), live: live.clone() }
    }
    fn tick(&self) -> u32 { self.n.set(self.n.get() + 1); self.n.get() }
}
impl Drop for Tick {
    fn drop(&mut self) { self.live.set(self.live.get() - 1) }
}
impl std::fmt::Debug for Tick {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "t{}", self.tick()) }
}
impl std::fmt::Display for Tick {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "t{}", self.tick()) }
}
impl Error for Tick {}

/// A captured value is formatted when asked for, and lives as long as the error.
fn payload(c: &mut Case) -> R {
    let live = std::rc::Rc::new(std::cell::Cell::new(0));
    let n = c.rng.range(1, 5);
    let mut all = vec![];
    for _ in 0..n {
        let k = c.rng.below(8);
        let t = Tick::new(&live);
        all.push((k, match k {
            0 => Uncaught::box_any(t),
            1 => Uncaught::fold_any(Box::new(t)),
            2 => Uncaught::box_debug(t),
            3 => Uncaught::fold_debug(Box::new(t)),
            4 => Uncaught::box_display(t),
            5 => Uncaught::fold_display(Box::new(t)),
            6 => Uncaught::box_error(t),
            _ => Uncaught::fold_error(Box::new(t)),
        }, 0));
        same!(live.get() as usize, all.len(), "captured values");
    }
    let mut trace = vec![];
    for _ in 0..c.rng.range(1, 8) {
        let i = c.rng.below(all.len());
        let (k, u, seen) = &mut all[i];
        let s = if c.rng.bool() { format!("{u:?}") } else { format!("{u}") };
        if *k > 1 {
            *seen += 1;
            ensure!(s.contains(&format!("t{seen}")), "text {s} of kind {k} formatted {seen} times");
        }
        same!(live.get() as usize, all.len(), "captured values while in use");
        trace.push(all[i].0);
        if all.len() > 1 && c.rng.chance(1, 4) {
            drop(all.swap_remove(c.rng.below(all.len())));
            same!(live.get() as usize, all.len(), "captured values after a drop");
        }
    }
    drop(all);
    same!(live.get(), 0, "captured values at the end");
    c.observe(&("payload", trace));
    Ok(())
}

fn uncaught(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut e = E { text: r.u16().to_string(), cause: None };
    for _ in 0..r.below(3) {
        e = E { text: r.u8().to_string(), cause: Some(Box::new(e)) };
    }
    let st: &'static E = Box::leak(Box::new(e.clone()));
    let k = r.below(12);
    let (u, dbg, dsp, src) = match k {
        0 => (Uncaught::box_any(e.clone()), "Uncaught::Any()".into(), "Uncaught(Any)".into(), false),
        1 => (Uncaught::fold_any(Box::new(e.clone())), "Uncaught::Any()".into(), "Uncaught(Any)".into(), false),
        2 => (Uncaught::fold_static_any(st), "Uncaught::StaticAny()".into(), "Uncaught(StaticAny)".into(), false),
        3 => (Uncaught::box_debug(e.clone()), format!("Uncaught::Debug({e:?})"), format!("Uncaught(Debug): {e:?}"), false),
        4 => (Uncaught::fold_debug(Box::new(e.clone())), format!("Uncaught::Debug({e:?})"), format!("Uncaught(Debug): {e:?}"), false),
        5 => (Uncaught::fold_static_debug(st), format!("Uncaught::StaticDebug({e:?})"), format!("Uncaught(StaticDebug): {e:?}"), false),
        6 => (Uncaught::box_display(e.clone()), format!("Uncaught::Display({e})"), format!("Uncaught(Display): {e}"), false),
        7 => (Uncaught::fold_display(Box::new(e.clone())), format!("Uncaught::Display({e})"), format!("Uncaught(Display): {e}"), false),
        8 => (Uncaught::fold_static_display(st), format!("Uncaught::StaticDisplay({e})"), format!("Uncaught(StaticDisplay): {e}"), false),
        9 => (Uncaught::box_error(e.clone()), format!("Uncaught::Error({e:?})"), format!("Uncaught(Error): {e}"), true),
        10 => (Uncaught::fold_error(Box::new(e.clone())), format!("Uncaught::Error({e:?})"), format!("Uncaught(Error): {e}"), true),
        _ => (Uncaught::fold_static_error(st), format!("Uncaught::StaticError({e:?})"), format!("Uncaught(StaticError): {e}"), true),
    };
    // Without the standard library, errors are known by their text only.
    let dbg = if cfg!(feature = "std") || k < 9 { dbg } else { format!("Uncaught::{}({e})", if k < 11 { "Error" } else { "StaticError" }) };
    same!(format!("{u:?}"), dbg, "debug of kind {k}");
    same!(format!("{u}"), dsp, "display of kind {k}");
    #[cfg(not(feature = "std"))]
    let _ = src;
    #[cfg(feature = "std")]
    let cause = u.source().map(|v| v.to_string());
    #[cfg(feature = "std")]
    same!(cause, if src { e.cause.as_ref().map(|v| v.to_string()) } else { None }, "cause of kind {k}");
    // The payload is the captured value, by kind.
    let ok = match (&u, k) {
        (Uncaught::Any(v), 0 | 1) => v.downcast_ref::<E>() == Some(&e) && v.downcast_ref::<String>().is_none(),
        (Uncaught::StaticAny(v), 2) => v.downcast_ref::<E>().is_some_and(|v| std::ptr::eq(v, st)),
        (Uncaught::Debug(v), 3 | 4) => format!("{v:?}") == format!("{e:?}"),
        (Uncaught::StaticDebug(v), 5) => std::ptr::addr_eq(*v as *const _, st),
        (Uncaught::Display(v), 6 | 7) => v.to_string() == e.to_string(),
        (Uncaught::StaticDisplay(v), 8) => std::ptr::addr_eq(*v as *const _, st),
        #[cfg(not(feature = "std"))]
        (Uncaught::Error(v), 9 | 10) => v.to_string() == e.to_string(),
        #[cfg(not(feature = "std"))]
        (Uncaught::StaticError(v), 11) => std::ptr::addr_eq(*v as *const _, st),
        #[cfg(feature = "std")]
        (Uncaught::Error(v), 9 | 10) => v.downcast_ref::<E>() == Some(&e),
        #[cfg(feature = "std")]
        (Uncaught::StaticError(v), 11) => v.downcast_ref::<E>().is_some_and(|v| std::ptr::eq(v, st)),
        _ => false,
    };
    ensure!(ok, "captured value of kind {k}");
    // A sink that fails at any write stops the output there.
    use std::fmt::Write as _;
    for dbg in [true, false] {
        let all = if dbg { format!("{u:?}") } else { format!("{u}") };
        for left in 0.. {
            let mut s = Stop { out: String::new(), left, after: 0, failed: false };
            let v = if dbg { write!(s, "{u:?}") } else { write!(s, "{u}") };
            same!(v.is_err(), s.failed, "result of kind {k} with a sink failing after {left} writes");
            same!(s.after, 0, "writes of kind {k} after a sink failed");
            ensure!(all.starts_with(&s.out), "output of kind {k} to a failing sink: {:?}", s.out);
            if !s.failed {
                same!(s.out, all, "output of kind {k}");
                break;
            }
        }
    }
    // Into a boxed error and back.
    #[cfg(feature = "std")]
    {
        let b: Box<dyn Error> = Box::new(u);
        same!(b.to_string(), dsp, "boxed display of kind {k}");
        ensure!(b.downcast_ref::<Uncaught>().is_some(), "boxed error downcasts");
    }
    c.observe(&("uncaught", k, e.cause.is_some()));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("osstr", (100_000, 3_000_000, 10), osstr);
    #[cfg(feature = "std")]
    cx.section("bridge", (30_000, 800_000, 6), bridges::bridge);
    cx.section("uncaught", (30_000, 300_000, 6), uncaught);
    cx.section("payload", (30_000, 300_000, 6), payload);
}

fn main() {
    harness::main(
        "C15",
        "A case is one pair of byte strings, one list of formatting operations with every sink call failing once, or one captured error; distinct = distinct strings, operations or error kinds.",
        run,
    );
}
