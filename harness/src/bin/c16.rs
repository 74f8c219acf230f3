//! D-Bus signatures: what is accepted, what is refused, and why.

use harness::sigmodel::*;
use harness::*;
use std::mem::MaybeUninit as Un;
use tmp::fmt::dbus::signature::Error;
use tmp::fmt::dbus::{Element, Sig};

fn map_err(e: &Error) -> Option<Bad> {
    Some(match *e {
        Error::DataExceeded => return None,
        Error::SignatureEmpty => Bad::Empty,
        Error::SignatureSequence { break_idx } => Bad::Sequence(break_idx),
        Error::SignatureIncomplete { container_idx } => Bad::Incomplete(container_idx),
        Error::ElementInvalid { idx, code } => Bad::Invalid(idx, code),
        Error::ElementUnknown { position, code } => Bad::Unknown(position, code),
        Error::ElementUnpaired { idx } => Bad::Unpaired(idx),
        Error::ElementMispaired { idx, pair_idx, expected } => Bad::Mispaired(idx, pair_idx, expected.map_or(0, |v| v.code())),
        Error::DictInvalid { position } => Bad::Dict(position),
    })
}

/// A signature holds exactly this text, also in every copy.
fn holds(s: &[u8], v: &Sig) -> R {
    same!(v.len(), s.len(), "length of {}", show(s));
    let got: Vec<u8> = v.into_iter().map(|e| e.code()).collect();
    ensure!(got == s, "elements of {} are {}", show(s), show(&got));
    if !cfg!(miri) {
        for (n, t) in [("text", v.to_string()), ("display", format!("{v}")), ("debug", format!("{v:?}"))] {
            ensure!(t.as_bytes() == s, "{n} of {} is {t:?}", show(s));
        }
    }
    Ok(())
}

fn accepted(s: &[u8], v: &Sig) -> R {
    holds(s, v)?;
    holds(s, &v.clone())?;
    holds(s, &v.to_owned())?;
    let b: Box<Sig> = v.clone();
    let b2 = Box::<Sig>::clone(&b);
    drop(b);
    holds(s, &b2)
}

fn judge(c: &mut Case, s: &[u8]) -> R {
    let want = parse(s);
    for arc in [false, true] {
        let got = if arc { Sig::arc(s).map(|v| Sig::clone(&v)) } else { Sig::new(s) };
        match (&want, &got) {
            (Ok(_), Ok(v)) => accepted(s, v)?,
            (Err(b), Err(e)) => {
                ensure!(map_err(e).as_ref() == Some(b), "{} refused with {e:?} instead of {b:?}", show(s));
            },
            (Ok(_), Err(e)) => return Err(format!("valid {} refused with {e:?}", show(s))),
            (Err(b), Ok(_)) => return Err(format!("{} accepted in spite of {b:?}", show(s))),
        }
    }
    c.count(if want.is_ok() { "accepted" } else { "refused" }, 1);
    match &want {
        Ok(_) => c.observe(s),
        Err(b) => c.observe(&(s.len(), b)),
    }
    c.sample(|| format!("{}: {:?}", show(s), want.as_ref().map(|_| "accepted")));
    Ok(())
}

fn text(c: &mut Case) -> R {
    let s = gen_text(&mut c.rng, cfg!(miri));
    judge(c, &s)
}

/// Every text up to a given length over a reduced alphabet.
fn every(c: &mut Case) -> R {
    let mut k = c.idx;
    const A: &[u8] = b"yva(){}s\x80c";
    let mut s = vec![];
    loop {
        if k == 0 {
            break;
        }
        k -= 1;
        s.push(A[(k % A.len() as u64) as usize]);
        k /= A.len() as u64;
    }
    judge(c, &s)
}

/// Every single byte, and every byte inside a container.
fn bytes(c: &mut Case) -> R {
    let b = c.idx as u8;
    let e = Element::from_code(b);
    same!(e.map(|v| v.code()), CODES.contains(&b).then_some(b), "element of {b:#x}");
    for s in [vec![b], vec![b'a', b], vec![b'(', b, b')'], vec![b'{', b, b'v', b'}'], vec![b'{', b's', b, b'}'], vec![b'y', b]] {
        judge(c, &s)?;
    }
    Ok(())
}

/// Parsing into buffers of any size: success, or an error, never anything
/// else; on success the buffer is usable.
fn buffer(c: &mut Case) -> R {
    let s = gen_text(&mut c.rng, cfg!(miri));
    let want = parse(&s);
    let need = Sig::size_for_length(s.len());
    let n = match c.rng.below(6) {
        0 => need,
        1 => need.saturating_sub(1),
        2 => need + 1,
        3 => c.rng.below(need + 8),
        4 => need + 6,
        _ => need.saturating_sub(6),
    };
    let mut data = vec![Un::<u64>::uninit(); n];
    let got = Sig::parse(&mut data, &s);
    let fits = n == need;
    match (&want, &got) {
        (Ok(_), Err(Error::DataExceeded)) if !fits => (),
        (_, Ok(())) if n < need => return Err(format!("{} accepted in {n} of {need} words", show(&s))),
        (Ok(_), Ok(())) => {
            // The whole buffer is initialized.
            let sum = data.iter().fold(0u64, |a, v| a.wrapping_add(unsafe { v.assume_init() }));
            std::hint::black_box(sum);
        },
        (Err(_), Err(Error::DataExceeded)) if !fits => (),
        (Err(b), Err(e)) => ensure!(map_err(e).as_ref() == Some(b), "{} in {n} words refused with {e:?} instead of {b:?}", show(&s)),
        _ => return Err(format!("{} in {n} of {need} words gives {got:?} instead of {want:?}", show(&s))),
    }
    c.observe(&(s.len(), n as isize - need as isize, got.is_ok()));
    c.count("buffers", 1);
    Ok(())
}

/// Statically sized signatures of any capacity.
fn fixed(c: &mut Case) -> R {
    fn t<const N: usize>(s: &[u8]) -> R {
        let want = parse(s);
        let fits = N == Sig::size_for_length(s.len());
        match (&want, Sig::<[u64; N]>::try_make(s)) {
            (Ok(_), Ok(v)) => {
                let d: Box<Sig<[u64; N]>> = Box::new(v);
                let u: &Sig = &*d;
                accepted(s, u)
            },
            (_, Err(Error::DataExceeded)) if !fits => Ok(()),
            (Err(b), Err(e)) => {
                ensure!(map_err(&e).as_ref() == Some(b), "{} in {N} words refused with {e:?} instead of {b:?}", show(s));
                Ok(())
            },
            (Ok(_), Err(e)) => Err(format!("valid {} refused in {N} words with {e:?}", show(s))),
            (Err(b), Ok(_)) => Err(format!("{} accepted in {N} words in spite of {b:?}", show(s))),
        }
    }
    let s = match c.rng.below(3) {
        0 => gen_text(&mut c.rng, cfg!(miri)),
        1 => { let mut s = vec![]; let n = c.rng.range(1, 6); gen_type(&mut c.rng, n, &mut s); s },
        _ => { let mut s = vec![]; let n = c.rng.range(30, 34); gen_type(&mut c.rng, n, &mut s); s },
    };
    t::<0>(&s)?;
    t::<1>(&s)?;
    t::<2>(&s)?;
    t::<3>(&s)?;
    t::<5>(&s)?;
    t::<16>(&s)?;
    t::<31>(&s)?;
    t::<32>(&s)?;
    t::<192>(&s)?;
    t::<197>(&s)?;
    t::<198>(&s)?;
    c.evals(11);
    c.observe(&("fixed", &s));
    Ok(())
}

/// Deep and long signatures.
fn large(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if cfg!(miri) {
        r.range(30, 60)
    } else if r.chance(1, 12) {
        *r.pick(&[32_767, 65_534, 65_535, 65_536, 65_538, 131_073]) + r.below(3)
    } else if r.chance(1, 3) {
        *r.pick(&[126, 252, 253, 254, 255, 256, 257, 258, 510, 511, 512]) + r.below(3)
    } else {
        r.range(200, 20_000)
    };
    let mut s = gen_large(r, n);
    // Dictionary entries with far too many members.
    if r.chance(1, 8) {
        s = vec![b'{'];
        s.extend(vec![*r.pick(BASIC); n]);
        s.push(b'}');
    }
    match c.rng.below(6) {
        0 => { s.pop(); },
        1 => s.push(*c.rng.pick(CODES)),
        2 => { let i = c.rng.below(s.len()); s[i] = *c.rng.pick(CODES) },
        _ => (),
    }
    judge(c, &s)
}

/// Signatures made at compile time equal those made at run time.
fn literals(c: &mut Case) -> R {
    use tmp::fmt::dbus::{sig, signature::{builtin, make}};
    macro_rules! go { ($($l:literal)*) => { $(
        let (s, m): (&Sig, &Sig) = (sig!($l), &make!($l));
        for v in [s, m] {
            accepted($l, v)?;
            let w = Sig::new($l).unwrap();
            ensure!(*v == *w && v.cmp(&w).is_eq(), "literal {} equals its run-time form", show($l));
            for i in 0..=v.len() {
                same!(v.at(i).map(|v| v.to_string()), w.at(i).map(|v| v.to_string()), "type at {i} of {}", show($l));
            }
        }
        c.observe(&$l[..]);
        c.evals(2);
    )* } }
    go!(b"y" b"b" b"n" b"q" b"i" b"u" b"x" b"t" b"d" b"h" b"s" b"o" b"g" b"v" b"as" b"a{sv}" b"(q)" b"((((t))))" b"aaaaaaas"
        b"a(oa{sa{sv}})" b"(ssssssssssssssssssssssssssss)" b"(sssssssssssssssssssssssssssss)" b"(ssssssssssssssssssssssssssssss)"
        b"(sssssssssssssssssssssssssssssss)" b"(ssssssssssssssssssssssssssssssss)" b"(a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv}a{sv})"
        b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay" b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay" b"{s(yv)}" b"(yyyyuua(yv))");
    accepted(b"s", builtin::s)?;
    accepted(b"a{sv}", builtin::asv)?;
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.exhaustive("literals", 1, literals);
    cx.exhaustive("byte", 256, bytes);
    cx.exhaustive("every", if cx.thorough() { 11_111_111 } else { 1_111_111 }, every);
    cx.section("text", (300_000, 6_000_000, 24), text);
    cx.section("buffer", (200_000, 4_000_000, 30), buffer);
    cx.section("fixed", (60_000, 1_000_000, 4), fixed);
    cx.section("large", (400, 6_000, 2), large);
}

fn main() {
    harness::main(
        "C16",
        "A case is one byte string judged by the parser (boxed, shared, fixed-size and into a raw buffer) and by the reference grammar; distinct = distinct accepted texts, and (length, reason and place) of refused ones.",
        run,
    );
}
