//! JSON event stream: valid documents, invalid sequences, and depth.

use harness::tokmodel::*;
use harness::*;
use std::ops::ControlFlow as Flow;
use tmp::fmt::json::stream::{Dec, Item};

/// Events are the characters `[ ] { }`, `k` for keys and `p` for scalars; `!`
/// is an error.
fn event(i: &Item<'_>) -> u8 {
    match i {
        Item::Error(_) => b'!',
        Item::Prim => b'p',
        Item::Key => b'k',
        Item::ArrayOpen => b'[',
        Item::ArrayClose => b']',
        Item::ObjectOpen => b'{',
        Item::ObjectClose => b'}',
    }
}

/// All events with the data arriving up to each position in turn.
fn events(d: &[u8], stops: &[usize], tight: bool) -> Result<Vec<u8>, String> {
    let (mut src, gauge) = Src::new(d, tight);
    let mut dec = Dec::with(&mut src);
    let mut out = vec![];
    for &stop in stops {
        gauge.arrive(stop);
        loop {
            match dec.pop() {
                Flow::Continue(i) => out.push(event(&i)),
                Flow::Break(more) => {
                    ensure_err(more.min > stop - gauge.consumed(), || format!("with {} bytes buffered, only asks for {more:?}", stop - gauge.consumed()))?;
                    break;
                },
            }
            ensure_err(out.len() <= 4 * d.len() + 16, || format!("{} events from {} bytes", out.len(), d.len()))?;
        }
    }
    drop(dec);
    ensure_err(!gauge.overrun(), || "consumed more than was available".into())?;
    Ok(out)
}

fn ensure_err(ok: bool, f: impl Fn() -> String) -> Result<(), String> { if ok { Ok(()) } else { Err(f()) } }

/// The reference: the events of the lexemes up to the first one that cannot
/// follow the ones before, and whether there is such a lexeme.
fn walk(list: &[Tk]) -> (Vec<u8>, bool) {
    #[derive(Clone, Copy, PartialEq)]
    enum Want { Value, ValueOrClose, KeyOrClose, Key, Colon, Next }
    let mut out = vec![];
    let mut stack: Vec<u8> = vec![];
    let mut want = Want::Value;
    for t in list {
        let value = matches!(want, Want::Value | Want::ValueOrClose);
        match t {
            Tk::White(_) => (),
            Tk::Err(_) => return (out, true),
            Tk::Mark(c @ (b'[' | b'{')) if value => {
                out.push(*c);
                stack.push(*c);
                want = if *c == b'[' { Want::ValueOrClose } else { Want::KeyOrClose };
            },
            Tk::Mark(b']') if stack.last() == Some(&b'[') && matches!(want, Want::ValueOrClose | Want::Next) => {
                out.push(b']');
                stack.pop();
                want = Want::Next;
            },
            Tk::Mark(b'}') if stack.last() == Some(&b'{') && matches!(want, Want::KeyOrClose | Want::Next) => {
                out.push(b'}');
                stack.pop();
                want = Want::Next;
            },
            Tk::Mark(b':') if want == Want::Colon => want = Want::Value,
            Tk::Mark(b',') if want == Want::Next && !stack.is_empty() => want = if stack.last() == Some(&b'[') { Want::Value } else { Want::Key },
            Tk::Str { .. } if matches!(want, Want::KeyOrClose | Want::Key) => {
                out.push(b'k');
                want = Want::Colon;
            },
            Tk::Null | Tk::False | Tk::True | Tk::Num { .. } | Tk::Str { .. } if value => {
                out.push(b'p');
                want = Want::Next;
            },
            _ => return (out, true),
        }
    }
    (out, false)
}

fn compare(d: &[u8], got: &[u8], list: &[Tk]) -> R {
    let (want, bad) = walk(list);
    if !bad {
        ensure!(got == want, "events of {}\n  observed: {}\n  expected: {}", show(d), show(got), show(&want));
    } else {
        ensure!(got.starts_with(&want), "events of {}\n  observed: {}\n  expected to start with: {}", show(d), show(got), show(&want));
        ensure!(got[want.len()..].contains(&b'!'), "no error reported for {}\n  observed: {}", show(d), show(got));
    }
    Ok(())
}

fn documents(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    list.extend(gen_white(r, 0));
    let mut b = if cfg!(miri) { 5 } else { match r.below(4) { 0 => 60, _ => r.range(1, 12) } };
    let depth = *r.pick(&[3, 8, 20]);
    gen_doc(r, &mut b, depth, &mut list);
    list.extend(gen_white(r, 1));
    let (d, _) = lay(&list);
    let at = stops(r, d.len());
    let tight = r.bool();
    let got = events(&d, &at, tight).map_err(|m| format!("{m}\n  {}", show(&d)))?;
    same!(walk(&list).1, false, "harness model rejects {}", show(&d));
    compare(&d, &got, &list)?;
    c.observe(&got);
    c.sample(|| format!("{} gives {}", show(&d), show(&got)));
    Ok(())
}

/// Valid documents with lexemes removed, repeated, exchanged or broken.
fn broken(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    let mut b = if cfg!(miri) { 5 } else { r.range(2, 20) };
    gen_doc(r, &mut b, 8, &mut list);
    for _ in 0..r.range(1, 3) {
        if list.is_empty() {
            break;
        }
        let i = r.below(list.len());
        match r.below(6) {
            0 => { list.remove(i); },
            1 => { let v = list[i].clone(); list.insert(i, v) },
            2 => { let j = r.below(list.len()); list.swap(i, j) },
            3 => list[i] = Tk::Mark(*r.pick(b"[]{},:")),
            4 => list.insert(i, Tk::Mark(*r.pick(b"[]{},:"))),
            _ => { let v = gen_scalar(r); list.insert(i, v) },
        }
    }
    // Deep inside other containers.
    if !cfg!(miri) && r.chance(1, 3) {
        let n = *r.pick(&[2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600]);
        let (mut head, mut tail) = (vec![], vec![]);
        let style = r.below(4);
        for _ in 0..n {
            if style == 0 || style > 1 && r.bool() {
                head.push(Tk::Mark(b'['));
                tail.push(Tk::Mark(b']'));
            } else {
                head.extend([Tk::Mark(b'{'), Tk::Str { raw: b"\"\"".to_vec(), text: String::new() }, Tk::Mark(b':')]);
                tail.push(Tk::Mark(b'}'));
            }
        }
        tail.reverse();
        // What comes first may be complete.
        if r.bool() {
            head.extend([Tk::Null, Tk::Mark(b',')]);
        }
        list = [head, list, tail].concat();
    }
    // Keep the lexemes apart.
    let mut d = vec![];
    for t in &list {
        d.extend(raw(t));
        d.push(b' ');
    }
    let at = stops(r, d.len());
    let tight = r.bool();
    let got = events(&d, &at, tight).map_err(|m| format!("{m}\n  {}", show(&d)))?;
    compare(&d, &got, &list)?;
    c.observe(&got);
    Ok(())
}

/// Malformed lexemes in otherwise valid documents are reported.
fn malformed(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    let mut b = if cfg!(miri) { 4 } else { r.range(1, 12) };
    gen_doc(r, &mut b, 8, &mut list);
    list.extend(gen_white(r, 1));
    let (mut d, _) = lay(&list);
    let i = r.below(d.len() + 1);
    let v = r.pick(&[&b"\x01"[..], b"+", b"#", b"\xff", b"\\", b"nul", b"\"\\q\"", b"-", b"."]).to_vec();
    d.splice(i..i, v);
    d.push(b' ');
    let tokens: Vec<Tk> = model(&d).into_iter().map(|v| v.tk).collect();
    let at = stops(r, d.len());
    let tight = r.bool();
    let got = events(&d, &at, tight).map_err(|m| format!("{m}\n  {}", show(&d)))?;
    // An unterminated string is only known at the end of the stream.
    let tokens: Vec<Tk> = tokens.into_iter().take_while(|v| *v != Tk::Err(Er::StrIncomplete)).collect();
    compare(&d, &got, &tokens)?;
    c.observe(&(b'm', &got));
    Ok(())
}

fn deep(c: &mut Case) -> R {
    let idx = c.idx;
    let r = &mut c.rng;
    let n = match idx % 8 { 0 => 150_000, 1 => 400_000, 2 => 70_000, 3 if idx == 3 => 1_500_000, _ => r.range(1000, 100_000) };
    let mut d = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    // All alike, or mixed.
    let style = r.below(4);
    for _ in 0..n {
        if style == 0 || style > 1 && r.bool() {
            d.push(b'[');
            want.push(b'[');
            ends.push(b']');
        } else {
            d.extend(b"{\"\":");
            want.extend(b"{k");
            ends.push(b'}');
        }
    }
    d.push(b'1');
    want.push(b'p');
    ends.reverse();
    d.extend(&ends);
    want.extend(&ends);
    d.push(b' ');
    let at = [d.len() / 2, d.len()];
    let mark = AllocMark::new();
    let got = events(&d, &at, false).map_err(|m| m.chars().take(300).collect::<String>())?;
    ensure!(got == want, "{n} nested containers: {} events, first difference at {:?}", got.len(), got.iter().zip(&want).position(|v| v.0 != v.1));
    ensure!(mark.peak() <= 64 * d.len(), "{} bytes allocated for {} bytes of text", mark.peak(), d.len());
    c.observe(&("deep", n));
    Ok(())
}

const LEX: &[&[u8]] = &[b"[", b"]", b"{", b"}", b":", b",", b"\"a\"", b"1"];

/// Containers to be inside of.
const INNER: &[(&[&[u8]], usize)] = &[
    (&[b"["], 8), (&[b"["], 40), (&[b"{", b"\"a\"", b":"], 8), (&[b"{", b"\"a\"", b":"], 40),
    (&[b"[", b"{", b"\"a\"", b":"], 9), (&[b"{", b"\"a\"", b":", b"["], 9), (&[b"[", b"1", b","], 20),
];

fn run(cx: &mut Ctx) {
    cx.section("documents", (400_000, 6_000_000, 12), documents);
    cx.section("broken", (400_000, 6_000_000, 12), broken);
    cx.section("malformed", (200_000, 3_000_000, 6), malformed);
    if !cx.miri() {
        cx.section("deep", (16, 200, 0), deep);
    }
    // All short sequences deep inside of containers.
    let base = LEX.len() as u64;
    let top = if cx.thorough() { 5 } else { 4 };
    let total: u64 = (0..=top).map(|k| base.pow(k)).sum();
    cx.exhaustive("inner", if cx.miri() { 0 } else { total * INNER.len() as u64 }, |c: &mut Case| {
        let (mut n, mut i) = (0, c.idx / INNER.len() as u64);
        while i >= base.pow(n) {
            i -= base.pow(n);
            n += 1;
        }
        let (unit, depth) = INNER[c.idx as usize % INNER.len()];
        let (mut d, mut list) = (vec![], vec![]);
        let mut add = |v: &[u8]| {
            d.extend(v);
            d.push(b' ');
            list.push(match v { b"1" => Tk::True, b"\"a\"" => Tk::Str { raw: vec![], text: String::new() }, v => Tk::Mark(v[0]) });
        };
        for _ in 0..depth {
            unit.iter().for_each(|v| add(v));
        }
        for _ in 0..n {
            add(LEX[(i % base) as usize]);
            i /= base;
        }
        let got = events(&d, &[d.len()], false)?;
        compare(&d, &got, &list)?;
        c.observe(&got);
        Ok(())
    });
    let top = if cx.thorough() { 8 } else { 6 };
    let base = LEX.len() as u64;
    cx.exhaustive("sequences", (0..=top).map(|k| base.pow(k)).sum(), |c: &mut Case| {
        let (mut n, mut i) = (0, c.idx);
        while i >= base.pow(n) {
            i -= base.pow(n);
            n += 1;
        }
        let (mut d, mut list) = (vec![], vec![]);
        for _ in 0..n {
            let v = LEX[(i % base) as usize];
            i /= base;
            d.extend(v);
            d.push(b' ');
            list.push(match v { b"1" => Tk::True, b"\"a\"" => Tk::Str { raw: vec![], text: String::new() }, v => Tk::Mark(v[0]) });
        }
        let got = events(&d, &[d.len()], false)?;
        compare(&d, &got, &list)?;
        c.observe(&got);
        Ok(())
    });
}

fn main() {
    harness::main(
        "C26",
        "A case is one sequence of JSON lexemes and one way of arriving, compared with a reference walk; distinct = distinct event sequences.",
        run,
    );
}
