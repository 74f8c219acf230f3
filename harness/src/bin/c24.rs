//! Streaming JSON tokenizer: tokens of valid text, arrival and completion.

use harness::tokmodel::*;
use harness::*;

fn soup(r: &mut Rng) -> Vec<u8> {
    let n = if cfg!(miri) { r.below(10) } else { match r.below(8) { 0 => 0, 1..=5 => r.below(16), _ => r.below(80) } };
    let kind = r.below(4);
    (0..n)
        .map(|_| match kind {
            0 => r.u8(),
            1 => *r.pick(b"\"\\ud8D0c19+-.eEn[]{},: \x1f\x80"),
            2 => *r.pick(b"+-.eE01 a"),
            _ => *r.pick(b"\"\\\"\\u0dDc8n\xc3\xa4 \x0a"),
        })
        .collect()
}

fn verify(c: &mut Case, d: &[u8], want: &[Ev]) -> R {
    let at = stops(&mut c.rng, d.len());
    let tight = c.rng.bool();
    drive(d, want, &at, tight).map_err(|m| format!("{m}\n  input {} arriving up to {at:?}", show(d)))
}

fn documents(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    list.extend(gen_white(r, 0));
    let mut b = if cfg!(miri) { 4 } else { match r.below(4) { 0 => 40, _ => r.range(1, 12) } };
    gen_doc(r, &mut b, 8, &mut list);
    list.extend(gen_white(r, 0));
    let (d, want) = lay(&list);
    // The text determines the tokens, so both derivations agree.
    ensure!(model(&d) == want, "harness models disagree on {}\n  {:?}\n  {want:?}", show(&d), model(&d));
    verify(c, &d, &want)?;
    c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
    c.sample(|| show(&d));
    Ok(())
}

/// Every way to split the text in two, and byte by byte.
fn splits(c: &mut Case) -> R {
    let r = &mut c.rng;
    let d = if r.bool() {
        let mut list = vec![];
        let mut b = 6;
        gen_doc(r, &mut b, 4, &mut list);
        lay(&list).0
    } else {
        soup(r)
    };
    let d = &d[..d.len().min(if cfg!(miri) { 6 } else { 60 })];
    let want = model(d);
    for tight in [false, true] {
        for k in 0..=d.len() {
            drive(d, &want, &[k, d.len()], tight).map_err(|m| format!("{m}\n  input {} split at {k}", show(d)))?;
            c.st.evaluations += 1;
        }
        let all: Vec<_> = (0..=d.len()).collect();
        drive(d, &want, &all, tight).map_err(|m| format!("{m}\n  input {} byte by byte", show(d)))?;
    }
    c.observe(&("splits", want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>()));
    Ok(())
}

fn bytes(c: &mut Case) -> R {
    let d = soup(&mut c.rng);
    let want = model(&d);
    verify(c, &d, &want)?;
    c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
    c.sample(|| show(&d));
    Ok(())
}

/// Long tokens.
fn long(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(4000, 40_000);
    let d: Vec<u8> = match r.below(5) {
        0 => vec![b' '; n],
        1 => vec![b'7'; n],
        2 => vec![b'x'; n],
        3 => [b"\"".to_vec(), vec![b'y'; n], b"\"".to_vec()].concat(),
        _ => [b"\"".to_vec(), b"\\u20ac\\n".repeat(n / 8), b"\"".to_vec()].concat(),
    };
    let mut text = d.clone();
    if r.bool() {
        text.push(b',');
    }
    if r.bool() {
        text.extend(&d);
    }
    let want = model(&text);
    let step = r.range(1000, 5000);
    let mut at: Vec<_> = (0..text.len()).step_by(step).collect();
    at.push(text.len());
    drive(&text, &want, &at, false).map_err(|m| format!("{}\n  {} bytes of {:?}", m.chars().take(400).collect::<String>(), text.len(), d[1] as char))?;
    c.observe(&("long", want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>(), d[1], n));
    Ok(())
}

/// Completion with unread data.
fn unread(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut list = vec![];
    list.extend(gen_white(r, 0));
    let mut b = if cfg!(miri) { 2 } else { r.range(1, 12) };
    gen_doc(r, &mut b, 4, &mut list);
    let (d, want) = lay(&list);
    let tight = r.bool();
    let n = early(&d, &want, tight).map_err(|m| format!("{m}\n  input {}", show(&d)))?;
    c.evals(n as u64);
    c.observe(&("unread", want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>()));
    Ok(())
}

const ALPHABET: &[u8] = b"\"\\u81+-.eE[, n\x1f\x80d";

fn short(idx: u64) -> Vec<u8> {
    let (mut n, mut i) = (0, idx);
    let base = ALPHABET.len() as u64;
    while i >= base.pow(n) {
        i -= base.pow(n);
        n += 1;
    }
    (0..n).map(|_| { let v = ALPHABET[(i % base) as usize]; i /= base; v }).collect()
}

/// Tokens of many thousand bytes, and what follows them.
fn huge(c: &mut Case) -> R {
    let d = gen_long(&mut c.rng);
    let want = model(&d);
    let at = long_stops(&mut c.rng, d.len());
    let tight = c.rng.chance(1, 8);
    drive(&d, &want, &at, tight).map_err(|m| format!("{}\n  {} bytes of text: {} ... {}", m.chars().take(600).collect::<String>(), d.len(), show(&d[..d.len().min(40)]), show(&d[d.len().saturating_sub(40)..])))?;
    c.count("bytes of long text", d.len() as u64);
    c.observe(&("huge", d.len(), want.iter().take(40).map(|v| kind(&v.tk)).collect::<Vec<_>>()));
    Ok(())
}

fn run(cx: &mut Ctx) {
    if !cx.miri() {
        cx.section("huge", (1_500, 20_000, 0), huge);
    }
    cx.section("documents", (500_000, 6_000_000, 10), documents);
    cx.section("bytes", (1_000_000, 12_000_000, 20), bytes);
    cx.section("splits", (30_000, 400_000, 2), splits);
    cx.section("unread", (40_000, 400_000, 2), unread);
    // Every byte in every state, and what follows.
    cx.exhaustive("states", (PREFIXES.len() * SUFFIXES.len()) as u64, |c| {
        let (p, s) = (PREFIXES[c.idx as usize / SUFFIXES.len()], SUFFIXES[c.idx as usize % SUFFIXES.len()]);
        for b in 0..=255u8 {
            let d = [p, &[b], s].concat();
            let want = model(&d);
            let all: Vec<_> = (0..=d.len()).collect();
            drive(&d, &want, &all, b % 2 == 0).map_err(|m| format!("{m}\n  input {} byte by byte", show(&d)))?;
            drive(&d, &want, &[d.len()], b % 2 == 1).map_err(|m| format!("{m}\n  input {} at once", show(&d)))?;
            c.evals(1);
            c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
        }
        Ok(())
    });
    if !cx.miri() {
        cx.section("long", (200, 4000, 0), long);
    }
    let base = ALPHABET.len() as u64;
    let top = if cx.thorough() { 6 } else { 5 };
    cx.exhaustive("short", (0..top).map(|n| base.pow(n)).sum(), |c: &mut Case| {
        let d = short(c.idx);
        let want = model(&d);
        let all: Vec<_> = (0..=d.len()).collect();
        drive(&d, &want, &all, false).map_err(|m| format!("{m}\n  input {} byte by byte", show(&d)))?;
        drive(&d, &want, &[d.len()], false).map_err(|m| format!("{m}\n  input {} at once", show(&d)))?;
        c.observe(&want.iter().map(|v| kind(&v.tk)).collect::<Vec<_>>());
        Ok(())
    });
}

fn main() {
    harness::main(
        "C24",
        "A case is one JSON text or byte string with one way of arriving, compared token by token including when each is reported; distinct = distinct sequences of token and error kinds.",
        run,
    );
}
