//! Streaming JSON tokenizer: diagnostics of malformed lexemes and recovery.

use harness::tokmodel::*;
use harness::*;

/// A text under construction, with what is expected of it.
#[derive(Default)]
struct Text { d: Vec<u8>, want: Vec<Ev> }

impl Text {
    fn error(&mut self, e: Er, extra: usize) { self.want.push(Ev { tk: Tk::Err(e), need: self.d.len() + extra }) }
    fn token(&mut self, t: Tk) {
        self.d.extend(raw(&t));
        let more = !matches!(t, Tk::Mark(_) | Tk::Str { .. });
        self.want.push(Ev { tk: t, need: self.d.len() + more as usize });
    }
}

fn esc(r: &mut Rng, code: u32) -> Vec<u8> { format!("\\u{}", hex4(r, code)).into_bytes() }

/// A string with several defects.
fn string(r: &mut Rng, t: &mut Text) {
    let from = t.d.len();
    let mut s: Vec<u8> = vec![];
    const LOST: &[u8] = "\u{fffd}".as_bytes();
    t.d.push(b'"');
    for _ in 0..r.range(1, 7) {
        let lead = r.range(0xd800, 0xdbff) as u32;
        let trail = r.range(0xdc00, 0xdfff) as u32;
        match r.below(13) {
            0 => {
                let c = r.below(0x20) as u8;
                t.d.push(c);
                t.error(Er::Unescaped(c), 0);
                s.push(c);
            },
            1 => {
                let c = loop {
                    let c = if r.bool() { r.u8() } else { *r.pick(b"aevxU01'()\n\0 ?") };
                    if !b"\"\\/bfnrtu".contains(&c) {
                        break c;
                    }
                };
                t.d.extend([b'\\', c]);
                t.error(Er::EscapeUnknown(c), 0);
                s.push(c);
            },
            2 => {
                let n = r.below(4);
                let h = r.u32();
                let h = hex4(r, h & 0xffff);
                t.d.extend(b"\\u");
                t.d.extend(&h.as_bytes()[..n]);
                t.error(Er::EscapeInvalid, 1);
                s.extend(LOST);
                // What stopped it is kept.
                let c = *r.pick(b"gGxz -_:");
                t.d.push(c);
                s.push(c);
            },
            3 => {
                let v = esc(r, trail);
                t.d.extend(v);
                t.error(Er::Trail(trail), 0);
                s.extend(LOST);
            },
            4 => {
                let v = esc(r, lead);
                t.d.extend(v);
                t.error(Er::Lead(lead), 1);
                let c = *r.pick(b"u0dxg ");
                t.d.push(c);
                s.extend(LOST);
                s.push(c);
            },
            5 => {
                let v = esc(r, lead);
                t.d.extend(v);
                let c = r.range(0x20, 0xd7ff) as u32;
                let v = esc(r, c);
                t.d.extend(v);
                t.error(Er::Lead(lead), 0);
                s.extend(LOST);
                s.extend(char::from_u32(c).unwrap().encode_utf8(&mut [0; 4]).bytes());
            },
            6 => {
                let v = esc(r, lead);
                t.d.extend(v);
                let (c, v) = *r.pick(&[(b'n', b'\n'), (b'"', b'"'), (b'\\', b'\\'), (b'/', b'/'), (b't', b'\t'), (b'b', 8), (b'f', 12), (b'r', 13)]);
                t.d.extend([b'\\', c]);
                t.error(Er::Lead(lead), 0);
                s.extend(LOST);
                s.push(v);
            },
            7 => {
                // Several leads, the last of them paired.
                let n = r.range(2, 4);
                let mut last = 0;
                for k in 0..n {
                    let lead = r.range(0xd800, 0xdbff) as u32;
                    let v = esc(r, lead);
                    t.d.extend(v);
                    if k > 0 {
                        t.error(Er::Lead(last), 0);
                        s.extend(LOST);
                    }
                    last = lead;
                }
                let v = esc(r, trail);
                t.d.extend(v);
                s.extend(char::from_u32(0x10000 + (last - 0xd800) * 0x400 + (trail - 0xdc00)).unwrap().encode_utf8(&mut [0; 4]).bytes());
            },
            8 => {
                // A lead followed by an escape that is too short.
                let v = esc(r, lead);
                t.d.extend(v);
                let n = r.below(4);
                t.d.extend(b"\\u");
                t.d.extend(&b"dc00"[..n]);
                t.error(Er::Lead(lead), 1);
                t.error(Er::EscapeInvalid, 1);
                t.d.push(b'k');
                s.extend(LOST);
                s.extend(LOST);
                s.push(b'k');
            },
            9 => {
                let v = r.pick(&[&b"\x80"[..], b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe2\x82"]).to_vec();
                t.d.extend(&v);
                s.extend(v);
            },
            _ => {
                let Tk::Str { raw, text } = gen_string(r) else { unreachable!() };
                t.d.extend(&raw[1..raw.len() - 1]);
                s.extend(text.bytes());
            },
        }
    }
    t.d.push(b'"');
    let raw = t.d[from..].to_vec();
    let tk = match String::from_utf8(s) {
        Ok(text) => Tk::Str { raw, text },
        Err(e) => Tk::Err(Er::StrNonUtf8 { raw, text: e.into_bytes() }),
    };
    t.want.push(Ev { tk, need: t.d.len() });
}

fn digits(r: &mut Rng, min: usize) -> String { (0..r.range(min, 4)).map(|_| (b'0' + r.below(10) as u8) as char).collect() }

/// A number with extra signs and empty parts.
fn number(r: &mut Rng, t: &mut Text) {
    let from = t.d.len();
    let signs: Vec<u8> = (0..r.below(5)).map(|_| *r.pick(b"+-")).collect();
    for (k, c) in signs.iter().enumerate() {
        t.d.push(*c);
        if k == 0 && *c == b'+' {
            t.error(Er::LeadingPlus, 0);
        }
        if k == 1 {
            t.error(Er::MultipleSigns, 0);
        }
    }
    // Something has to mark it as number.
    let integer = digits(r, signs.is_empty() as usize);
    t.d.extend(integer.bytes());
    let fraction = r.bool().then(|| digits(r, 0));
    if let Some(v) = &fraction {
        t.d.push(b'.');
        t.d.extend(v.bytes());
    }
    let exponent = r.bool().then(|| (r.below(4), digits(r, 0)));
    let mut minus = false;
    if let Some((n, v)) = &exponent {
        t.d.push(*r.pick(b"eE"));
        for k in 0..*n {
            let c = *r.pick(b"+-");
            minus = c == b'-';
            t.d.push(c);
            if k > 0 {
                t.error(Er::MultipleSigns, 0);
            }
        }
        t.d.extend(v.bytes());
    }
    let empty = integer.is_empty() || fraction.as_ref().is_some_and(|v| v.is_empty()) || exponent.as_ref().is_some_and(|v| v.1.is_empty());
    if empty {
        t.error(Er::RangeEmpty, 1);
    }
    let tk = Tk::Num { raw: t.d[from..].to_vec(), minus: signs.last() == Some(&b'-'), integer, fraction, exponent: exponent.map(|v| (minus, v.1)) };
    t.want.push(Ev { tk, need: t.d.len() + 1 });
}

fn item(r: &mut Rng, t: &mut Text) {
    let v = match r.below(4) {
        0 => r.pick(&["nul", "nulll", "Null", "NULL", "tru", "truee", "True", "fals", "falsey", "False", "nullnull", "truefalse", "true1", "null-", "false."]).as_bytes().to_vec(),
        1 => r.pick(&["NaN", "Infinity", "undefined", "a", "x0", ".5", ".", "e5", "E", "inf", "_a", "$a", "#", "/", "(", "=", "\x00", "\x7f", "\x1f", "\\"]).as_bytes().to_vec(),
        2 => {
            let mut v = vec![*r.pick(b"abcxyzABZ._$%&'()*;<=>?@^`|~/!#\\")];
            v.extend((0..r.below(12)).map(|_| *r.pick(b"abcxyzABZ059.+-")));
            v
        },
        _ => {
            let mut v = vec![r.range(0x80, 0xff) as u8];
            v.extend((0..r.below(5)).map(|_| *r.pick(b"abcxyzABZ059.+-")));
            v
        },
    };
    t.d.extend(&v);
    let e = match std::str::from_utf8(&v) { Ok(_) => Er::ItemUnknown(v), Err(_) => Er::ItemNonUtf8(v) };
    t.error(e, 1);
}

fn separate(r: &mut Rng, t: &mut Text) {
    let a = gen_white(r, 0);
    if let Some(v) = a {
        t.token(v);
    }
    t.token(Tk::Mark(*r.pick(b",:[]{},,")));
    let a = gen_white(r, 0);
    if let Some(v) = a {
        t.token(v);
    }
}

fn lexemes(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut t = Text::default();
    let n = r.range(1, 6);
    for _ in 0..n {
        match r.below(7) {
            0..=2 => string(r, &mut t),
            3 | 4 => number(r, &mut t),
            5 => item(r, &mut t),
            _ => { let v = gen_scalar(r); t.token(v) },
        }
        separate(r, &mut t);
    }
    match r.below(6) {
        0 => {
            // Unterminated string at the end.
            t.d.push(b'"');
            let v = r.pick(&[&b""[..], b"abc", b"\\", b"\\u", b"\\u12", b"\\ud8", b"\\ud800", b"\\ud800\\", b"\\ud800\\u", b"\\ud800\\udc0", b"\\n", b"x\xc3"]).to_vec();
            t.d.extend(v);
            t.error(Er::StrIncomplete, 1);
        },
        1 => number(r, &mut t),
        2 => item(r, &mut t),
        3 => if let Some(v) = gen_white(r, 1) {
            // Whitespace joins what was left after the last separator.
            if let Some(Ev { tk: Tk::White(w), .. }) = t.want.last_mut() {
                let Tk::White(v) = v else { unreachable!() };
                w.extend(&v);
                t.d.extend(v);
                t.want.last_mut().unwrap().need = t.d.len() + 1;
            } else {
                t.token(v);
            }
        },
        _ => (),
    }
    ensure!(model(&t.d) == t.want, "harness models disagree on {}\n  {:?}\n  {:?}", show(&t.d), model(&t.d), t.want);
    let at = stops(r, t.d.len());
    let tight = r.bool();
    drive(&t.d, &t.want, &at, tight).map_err(|m| format!("{m}\n  input {} arriving up to {at:?}", show(&t.d)))?;
    let n = t.want.iter().filter(|v| matches!(v.tk, Tk::Err(_))).count();
    c.count("malformed lexemes", n as u64);
    c.observe(&t.want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
    c.sample(|| show(&t.d));
    Ok(())
}

/// Valid text with random damage.
fn damaged(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    let mut b = r.range(2, 16);
    gen_doc(r, &mut b, 6, &mut list);
    let mut d = lay(&list).0;
    for _ in 0..r.range(1, 4) {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len());
        match r.below(6) {
            0 => d[i] ^= 1 << r.below(8),
            1 => d[i] = *r.pick(b"\"\\u+-.eE,[]{}:\x1f\x00\x80dD8"),
            2 => d.insert(i, *r.pick(b"\"\\u+-.eE,[]{}:\x1f\x00\x80dD8")),
            3 => { d.remove(i); },
            4 => d.truncate(i),
            _ => {
                let j = i + r.below(d.len() - i) / 2;
                let v = d[i..j].to_vec();
                let k = r.below(d.len());
                d.splice(k..k, v);
            },
        }
    }
    let want = model(&d);
    let at = stops(r, d.len());
    let tight = r.bool();
    drive(&d, &want, &at, tight).map_err(|m| format!("{m}\n  input {} arriving up to {at:?}", show(&d)))?;
    c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
    Ok(())
}

fn sequence(mut i: u64, atoms: &[&[u8]]) -> Vec<u8> {
    let base = atoms.len() as u64;
    let mut n = 0;
    while i >= base.pow(n) {
        i -= base.pow(n);
        n += 1;
    }
    let mut v = vec![];
    for _ in 0..n {
        v.extend(atoms[(i % base) as usize]);
        i /= base;
    }
    v
}

fn all(c: &mut Case, d: Vec<u8>) -> R {
    let want = model(&d);
    let each: Vec<_> = (0..=d.len()).collect();
    drive(&d, &want, &each, false).map_err(|m| format!("{m}\n  input {} byte by byte", show(&d)))?;
    drive(&d, &want, &[d.len()], true).map_err(|m| format!("{m}\n  input {} at once", show(&d)))?;
    c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
    Ok(())
}

const PIECES: &[&[u8]] = &[b"a", b"\x1f", b"\x00", b"\\n", b"\\q", b"\\u", b"0", b"\\ud83d", b"\\uDE00", b"\\u0041", b"\x80", "\u{e9}".as_bytes(), b"\""];
const SIGNS: &[&[u8]] = &[b"+", b"-", b".", b"e", b"E", b"0", b"7", b","];

/// Tokens of many thousand bytes, and what follows them.
fn huge(c: &mut Case) -> R {
    let d = gen_long(&mut c.rng);
    let want = model(&d);
    let at = long_stops(&mut c.rng, d.len());
    let tight = c.rng.chance(1, 8);
    drive(&d, &want, &at, tight).map_err(|m| format!("{}\n  {} bytes of text: {} ... {}", m.chars().take(600).collect::<String>(), d.len(), show(&d[..d.len().min(40)]), show(&d[d.len().saturating_sub(40)..])))?;
    c.count("bytes of long text", d.len() as u64);
    c.observe(&("huge", d.len(), want.iter().take(40).map(|v| kind(&v.tk)).collect::<Vec<_>>()));
    Ok(())
}

fn run(cx: &mut Ctx) {
    if !cx.miri() {
        cx.section("huge", (1_500, 20_000, 0), huge);
    }
    cx.section("lexemes", (800_000, 10_000_000, 0), lexemes);
    cx.section("damaged", (800_000, 10_000_000, 0), damaged);
    let deep = cx.thorough();
    let count = |n: usize, top: u32| (0..=top).map(|k| (n as u64).pow(k)).sum::<u64>();
    // Every byte in every state, and what follows.
    cx.exhaustive("states", (PREFIXES.len() * SUFFIXES.len()) as u64, |c| {
        let (p, s) = (PREFIXES[c.idx as usize / SUFFIXES.len()], SUFFIXES[c.idx as usize % SUFFIXES.len()]);
        for b in 0..=255u8 {
            all(c, [p, &[b], s].concat())?;
            c.evals(1);
        }
        Ok(())
    });
    cx.exhaustive("strings", count(PIECES.len(), if deep { 6 } else { 5 }), |c: &mut Case| {
        let mut d = vec![b'"'];
        d.extend(sequence(c.idx, PIECES));
        if c.idx % 2 == 0 {
            d.extend(b"\",1");
        }
        all(c, d)
    });
    cx.exhaustive("numbers", count(SIGNS.len(), if deep { 7 } else { 6 }), |c: &mut Case| {
        let d = sequence(c.idx, SIGNS);
        all(c, d)
    });
}

fn main() {
    harness::main(
        "C25",
        "A case is one text with malformed lexemes and one way of arriving; distinct = distinct sequences of token and error kinds.",
        run,
    );
}
