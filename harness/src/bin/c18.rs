//! D-Bus encoder: exact output bytes.

use harness::dvarmodel::*;
use harness::*;
use osi::mown::Mown;
use std::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::{Enc, Format};
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map::Write;

fn cont(f: Flow<Option<Error>, &mut Enc<'_, '_>>, what: &str) -> R {
    match f {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(format!("{what} refused: {e:?}")),
    }
}

/// Write one value, with nested encoders wherever the dice say so.
fn drive<'s>(enc: &mut Enc<'s, '_>, s: &[u8], v: &'s V, r: &mut Rng, rate: usize, trace: &mut Vec<u8>) -> R {
    if r.below(100) < rate {
        trace.push(b'<');
        let own;
        let mut sub = if r.bool() {
            enc.enc().map_err(|e| format!("nested encoder: {e:?}"))?
        } else {
            own = Sig::arc(&s[..type_len(s)]).map_err(|e| format!("{e:?}"))?;
            let m = if r.bool() { Mown::new_borrowed(&*own) } else { Mown::new_owned(own.clone()) };
            enc.enc_with(m).map_err(|e| format!("nested encoder for {}: {e:?}", show(&s[..type_len(s)])))?
        };
        // A nested encoder may itself be nested.
        drive(&mut sub, s, v, r, rate / 2, trace)?;
        sub.commit().map_err(|e| format!("nested commit: {e:?}"))?;
        if r.chance(1, 3) {
            sub.commit().map_err(|e| format!("another nested commit: {e:?}"))?;
        }
        trace.push(b'>');
        return Ok(());
    }
    trace.push(s[0]);
    match v {
        V::Q(x) => cont(enc.u16(*x), "u16")?,
        V::U(x) => cont(enc.u32(*x), "u32")?,
        V::T(x) => cont(enc.u64(*x), "u64")?,
        V::S(x) => cont(enc.string(x), "string")?,
        V::O(x) => cont(enc.object(x), "object")?,
        V::G(x) => cont(enc.signature(x), "signature")?,
        V::Var(g, sig, x) => {
            match r.below(3) {
                0 => cont(enc.variant(sig), "variant")?,
                1 => cont(enc.variant_with(Mown::new_borrowed(sig)), "variant")?,
                _ => cont(enc.variant_with(Mown::new_owned(sig.clone())), "variant")?,
            }
            drive(enc, g, x, r, rate, trace)?;
            cont(enc.close(), "closing the variant")?;
        },
        V::Arr(xs) => {
            cont(enc.array(), "array")?;
            for x in xs {
                drive(enc, &s[1..], x, r, rate, trace)?;
            }
            cont(enc.close(), "closing the array")?;
        },
        V::Str(xs) => {
            cont(enc.structure(), "structure")?;
            let mut i = 1;
            for x in xs {
                drive(enc, &s[i..], x, r, rate, trace)?;
                i += type_len(&s[i..]);
            }
            cont(enc.close(), "closing the structure")?;
        },
        V::Dict(k, x) => {
            cont(enc.dict(), "dictionary entry")?;
            drive(enc, &s[1..], k, r, rate, trace)?;
            drive(enc, &s[1 + type_len(&s[1..])..], x, r, rate, trace)?;
            cont(enc.close(), "closing the dictionary entry")?;
        },
    }
    Ok(())
}

fn value(r: &mut Rng) -> (Vec<u8>, V) {
    let n = if cfg!(miri) { r.range(1, 8) } else { match r.below(10) { 0 => r.range(20, 50), 1..=3 => r.range(1, 20), _ => r.range(1, 8) } };
    let s = gen_sig(r, n);
    let mut b = if cfg!(miri) { 6 } else { 60 };
    let v = gen_value(r, &s, &mut b, 0).0;
    (s, v)
}

/// Long texts, long arrays, deep nesting, and long signatures.
fn large(r: &mut Rng) -> (Vec<u8>, V) {
    let long = |r: &mut Rng| { let n = *r.pick(&[255, 256, 257, 4095, 4096, 65535, 65536, 70000]) + r.below(9); "y".repeat(n) };
    match r.below(9) {
        7 => {
            // Aligned leaves at great depth.
            let n = *r.pick(&[20usize, 31, 32, 39, 40, 41, 42, 63, 64, 65, 66, 100, 200, 254, 255, 256, 300]);
            let (mut v, leaf) = match r.below(4) {
                0 => (V::Str(vec![V::U(r.u32()), V::T(r.u64())]), &b"(ut)"[..]),
                1 => (V::Str(vec![V::Q(r.u16()), V::U(r.u32()), V::Q(r.u16()), V::T(r.u64())]), &b"(quqt)"[..]),
                2 => (V::Arr((0..r.below(4)).map(|_| V::T(r.u64())).collect()), &b"at"[..]),
                _ => (V::Str(vec![V::S(text(r, 9)), V::Arr(vec![V::Str(vec![V::Q(r.u16())])])]), &b"(sa(q))"[..]),
            };
            let mut s = leaf.to_vec();
            for _ in 0..n {
                match r.below(3) {
                    0 => { v = V::Str(vec![V::Q(r.u16()), v]); s = [b"(q", &s[..], b")"].concat() },
                    1 => { v = V::Arr(vec![v]); s = [b"a", &s[..]].concat() },
                    _ => { v = V::Str(vec![v, V::U(r.u32())]); s = [b"(", &s[..], b"u)"].concat() },
                }
            }
            (s, v)
        },
        8 if r.chance(1, 6) => {
            // Megabytes.
            let n = *r.pick(&[1usize << 20, (1 << 20) + 8, 1_500_000, 1 << 24, (1 << 24) + 1]);
            match r.below(3) {
                0 => (b"as".to_vec(), V::Arr(vec![V::S("z".repeat(n)), V::S(text(r, 9))])),
                1 => { let n = n.min(1_500_000) / 8; (b"(at)".to_vec(), V::Str(vec![V::Arr((0..n).map(|_| V::T(r.u64())).collect())])) },
                _ => { let n = n.min(1_500_000) / 8; (b"a(qu)".to_vec(), V::Arr((0..n).map(|_| V::Str(vec![V::Q(r.u16()), V::U(r.u32())])).collect())) },
            }
        },
        0 | 8 => (b"s".to_vec(), V::S(long(r))),
        1 => (b"(qot)".to_vec(), V::Str(vec![V::Q(r.u16()), V::O(long(r)), V::T(r.u64())])),
        2 => {
            let n = *r.pick(&[255usize, 256, 1000, 8192, 20000]);
            let t = *r.pick(b"qut");
            let xs = (0..n).map(|_| match t { b'q' => V::Q(r.u16()), b'u' => V::U(r.u32()), _ => V::T(r.u64()) }).collect();
            (vec![b'a', t], V::Arr(xs))
        },
        3 => {
            let n = r.range(200, 3000);
            let xs = (0..n).map(|_| V::Dict(Box::new(V::S(text(r, 9))), { let q = r.u16(); Box::new(V::Var(b"q".to_vec(), Sig::arc(b"q").unwrap(), Box::new(V::Q(q)))) })).collect();
            (b"a{sv}".to_vec(), V::Arr(xs))
        },
        4 => {
            // Structures and arrays inside each other.
            let n = *r.pick(&[31usize, 32, 33, 63, 64, 65, 120, 127, 128, 200, 400]);
            let mut s = vec![];
            let mut v = V::Q(r.u16());
            let kinds: Vec<bool> = (0..n).map(|_| r.bool()).collect();
            for k in kinds.iter() {
                v = if *k { V::Arr(vec![v]) } else { V::Str(vec![v]) };
            }
            for k in kinds.iter().rev() {
                s.push(if *k { b'a' } else { b'(' });
            }
            s.push(b'q');
            s.extend(kinds.iter().filter(|v| !**v).map(|_| b')'));
            (s, v)
        },
        5 => {
            // Variants inside each other.
            let mut v = V::U(r.u32());
            let mut g = b"u".to_vec();
            for _ in 0..*r.pick(&[31, 32, 33, 63, 64, 65, 130, 260]) {
                v = V::Var(g.clone(), Sig::arc(&g).unwrap(), Box::new(v));
                g = b"v".to_vec();
                if r.chance(1, 4) {
                    v = V::Str(vec![V::Q(r.u16()), v]);
                    g = b"(qv)".to_vec();
                }
            }
            (g, v)
        },
        _ => {
            // The longest signatures a variant can hold, and beyond for others.
            let n = *r.pick(&[120usize, 126, 127, 128, 129, 252, 253]);
            let g = [b"(".to_vec(), vec![b'q'; n], b")".to_vec()].concat();
            let v = V::Str((0..n).map(|_| V::Q(r.u16())).collect());
            let v = V::Var(g.clone(), Sig::arc(&g).unwrap(), Box::new(v));
            let k = *r.pick(&[1usize, 200, 255, 256, 300, 1000]);
            ([b"(".to_vec(), vec![b't'; k], b"v)".to_vec()].concat(), V::Str((0..k).map(|_| V::T(r.u64())).chain([v]).collect()))
        },
    }
}

fn encode(c: &mut Case) -> R {
    let (s, v) = value(&mut c.rng);
    verify(c, s, v, false)
}

fn encode_large(c: &mut Case) -> R {
    let (s, v) = large(&mut c.rng);
    verify(c, s, v, true).map_err(|m| if m.len() > 3000 { format!("{} ...", m.chars().take(3000).collect::<String>()) } else { m })
}

fn verify(c: &mut Case, s: Vec<u8>, v: V, large: bool) -> R {
    let r = &mut c.rng;
    let sig = Sig::new(&s).map_err(|e| format!("{} {e:?}", show(&s)))?;
    let mut trace = vec![];
    for be in [false, true] {
        let mut want = vec![];
        marshal(&mut want, be, &s, &v);
        // Growable buffers, possibly with earlier content.
        let n = r.below(3) * r.below(6);
        let pre = r.bytes(n);
        let mut buf = pre.clone();
        let rate = if large { *r.pick(&[0, 1]) } else { *r.pick(&[0, 10, 40]) };
        {
            let mut e = match (r.below(3), be) {
                (0, true) => Enc::new_be(&sig, &mut buf),
                (0, false) => Enc::new_le(&sig, &mut buf),
                (1, _) => {
                    let ende::Enc::DVar(e) = ende::Enc::new(&sig, if be { ende::Format::DVarBe } else { ende::Format::DVarLe }, &mut buf);
                    e
                },
                _ => Enc::with(Mown::new_borrowed(&sig), if be { Format::DVarBe } else { Format::DVarLe }, &mut buf),
            };
            drive(&mut e, &s, &v, r, rate, &mut trace).map_err(|m| format!("{m} ({} {v:?})", show(&s)))?;
            same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
            if r.bool() {
                same!(e.commit(), Ok(()), "another commit of {} {v:?}", show(&s));
            }
        }
        ensure!(buf.starts_with(&pre), "content before {} changed to {}", show(&pre), show(&buf));
        ensure!(buf[pre.len()..] == want, "{} {v:?} (big-endian {be})\n  observed: {}\n  expected: {}", show(&s), show(&buf[pre.len()..]), show(&want));
        // Sinks that map memory in pieces.
        let mut sink = Sink::new(r);
        let log = sink.log.clone();
        {
            let own = std::sync::Arc::<Sig>::from(Sig::arc(&s).map_err(|e| format!("{e:?}"))?);
            let mut e = Enc::with(Mown::new_owned(own), if be { Format::DVarBe } else { Format::DVarLe }, &mut sink);
            drive(&mut e, &s, &v, r, rate, &mut trace).map_err(|m| format!("{m} ({} {v:?})", show(&s)))?;
            same!(log.commits(), 0, "published before commit, {} {v:?}", show(&s));
            same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
            same!(e.commit(), Ok(()), "another commit of {} {v:?}", show(&s));
        }
        same!(log.committed(), want.len(), "bytes published of {} {v:?}", show(&s));
        ensure!(sink.data[..want.len()] == want, "{} {v:?} (big-endian {be}) in pieces\n  observed: {}\n  expected: {}", show(&s), show(&sink.data[..want.len()]), show(&want));
        c.st.evaluations += 2;
    }
    if large {
        trace.truncate(2000);
    }
    c.observe(&(&s, &trace));
    if !large {
        c.sample(|| format!("{} {v:?}", show(&s)));
    }
    Ok(())
}

/// Fluent use, several values in one buffer.
fn sequence(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut buf: Vec<u8> = vec![];
    let mut want: Vec<u8> = vec![];
    let mut sigs = vec![];
    for _ in 0..r.range(1, 4) {
        let (s, v) = value(r);
        let sig = Sig::new(&s).map_err(|e| format!("{e:?}"))?;
        let be = r.bool();
        let mut one = vec![];
        marshal(&mut one, be, &s, &v);
        let mut e = if be { Enc::new_be(&sig, &mut buf) } else { Enc::new_le(&sig, &mut buf) };
        let mut trace = vec![];
        drive(&mut e, &s, &v, r, 20, &mut trace)?;
        let publish = r.chance(3, 4);
        if publish {
            same!(e.commit(), Ok(()), "commit of {} {v:?}", show(&s));
            want.extend_from_slice(&one);
        }
        drop(e);
        ensure!(buf == want, "buffer after {} {v:?}, committed {publish}\n  observed: {}\n  expected: {}", show(&s), show(&buf), show(&want));
        sigs.push((s, publish));
    }
    let _: &dyn Write = &buf;
    c.observe(&("sequence", &sigs));
    Ok(())
}

/// The longest text a signature value can hold, and one more.
fn limits(c: &mut Case) -> R {
    let r = &mut c.rng;
    let be = r.bool();
    let sig = Sig::new(b"(gs)").map_err(|e| format!("{e:?}"))?;
    let mut buf = vec![];
    let mut e = if be { Enc::new_be(&sig, &mut buf) } else { Enc::new_le(&sig, &mut buf) };
    cont(e.structure(), "structure")?;
    let n = *r.pick(&[256usize, 257, 300, 511, 512, 768, 65536, 65536 + 3]) + r.below(2);
    same!(e.signature(&"i".repeat(n)).break_value(), Some(Some(Error::DataOverflow)), "signature of {n} bytes");
    let k = *r.pick(&[0usize, 1, 254, 255]);
    let g = "i".repeat(k);
    cont(e.signature(&g), "signature")?;
    cont(e.string("x"), "string")?;
    cont(e.close(), "close")?;
    same!(e.commit(), Ok(()), "commit");
    drop(e);
    let mut want = vec![];
    marshal(&mut want, be, b"(gs)", &V::Str(vec![V::G(g), V::S("x".into())]));
    same!(show(&buf), show(&want), "encoding after a refused signature of {n} bytes");
    c.observe(&("limit", n, k, be));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("limits", (500, 5_000, 4), limits);
    cx.section("encode", (60_000, 1_500_000, 20), encode);
    cx.section("large", (1500, 20_000, 0), encode_large);
    cx.section("sequence", (40_000, 1_000_000, 10), sequence);
}

fn main() {
    harness::main(
        "C18",
        "A case is one random signature and value encoded in both byte orders, with random nesting of encoders, into a growable buffer and into a sink mapping memory in pieces, or a sequence of values in one buffer; distinct = distinct (signature, encoder call structure).",
        run,
    );
}
