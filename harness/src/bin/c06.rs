//! Character-level JSON tokenizer: splits, reuse, stops, status.

use harness::charjson::*;
use harness::*;
use osi::json::token::{Status, Tokenizer};
use std::ops::ControlFlow;

fn base(text: &str, flags: u32) -> Result<Vec<Tk>, String> {
    let mut t = Tokenizer::with_flags(flags);
    let mut r = Rec::default();
    same!(t.parse_str(&mut r, text), ControlFlow::Continue(Status::Done), "status of {text:?}");
    same!(t.status(), Status::Done, "status after parsing {text:?}");
    Ok(r.out)
}

/// Feed pieces in a random way without the end marker.
fn feed(r: &mut Rng, t: &mut Tokenizer, rec: &mut Rec, text: &str) -> ControlFlow<u32, Status> {
    let ch: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut last = ControlFlow::Continue(t.status());
    while i < ch.len() || r.chance(1, 6) {
        match r.below(3) {
            0 if i < ch.len() => {
                last = t.push(rec, Some(ch[i]));
                i += 1;
            },
            _ => {
                let n = if r.chance(1, 8) { r.len(5000) } else { r.len(20) }.min(ch.len() - i);
                let s: String = ch[i..i + n].iter().collect();
                last = t.push_str(rec, &s);
                i += n;
            },
        }
        if last.is_break() {
            return last;
        }
    }
    last
}

fn run(cx: &mut Ctx) {
    cx.section("splits", (80_000, 1_500_000, 0), |c| {
        let text = gen_text(&mut c.rng);
        let flags = c.rng.below(4) as u32;
        let want = base(&text, flags)?;
        // Arbitrary pieces on an engine with a history.
        let mut t = Tokenizer::with_flags(flags);
        for _ in 0..c.rng.ops(3) - 1 {
            let other = gen_text(&mut c.rng);
            let mut junk = Rec::default();
            match c.rng.below(4) {
                0 => {
                    let _ = feed(&mut c.rng, &mut t, &mut junk, &other);
                    t.reset();
                },
                1 => {
                    let w = base(&other, flags)?;
                    if !w.is_empty() {
                        junk.stop = Some(c.rng.below(w.len()));
                    }
                    let _ = t.parse_str(&mut junk, &other);
                },
                2 => {
                    let _ = feed(&mut c.rng, &mut t, &mut junk, &other);
                    let _ = t.push(&mut junk, None);
                },
                _ => { let _ = t.parse_str(&mut junk, &other); },
            }
            same!(t.status(), Status::Done, "status after reset, stop or end following {other:?}");
        }
        let mut rec = Rec::default();
        let s = feed(&mut c.rng, &mut t, &mut rec, &text);
        same!(s, ControlFlow::Continue(t.status()), "returned status for {text:?}");
        // Clone mid-way: both must complete alike.
        let mut t2 = t.clone();
        let mut rec2 = Rec { out: rec.out.clone(), stop: None };
        same!(t.push(&mut rec, None), ControlFlow::Continue(Status::Done), "status at end of {text:?}");
        let _ = t2.push(&mut rec2, None);
        same!(rec.out, want, "pieces vs. whole for {text:?}");
        same!(rec2.out, want, "cloned tokenizer for {text:?}");
        // End marker again is a no-op.
        let n = rec.out.len();
        same!(t.push(&mut rec, None), ControlFlow::Continue(Status::Done), "second end of {text:?}");
        same!(rec.out.len(), n, "reports on second end of {text:?}");
        c.count("tokens", n as u64);
        c.observe(&(kinds(&want), flags));
        c.sample(|| format!("{text:?}"));
        Ok(())
    });
    // Very long tokens, in pieces, stopped, reset, and followed by others.
    cx.section("long", (400, 6_000, 0), |c| {
        let r = &mut c.rng;
        let n = *r.pick(&[100usize, 127, 128, 129, 255, 256, 257, 299, 300, 301, 500, 511, 512, 1000, 1024, 4096, 5000, 65_536, 70_000]) + r.below(2);
        let digits = |r: &mut Rng, n: usize| -> String { (0..n).map(|i| if i == 0 { '1' } else { *r.pick(&['0', '5', '9']) }).collect() };
        let token = match r.below(10) {
            0 => digits(r, n),
            1 => format!("-{}", digits(r, n)),
            2 => format!("0.{}", digits(r, n)),
            3 => format!("7e{}{}", r.pick(&["", "+", "-"]), digits(r, n)),
            4 => format!("{}.{}e{}", digits(r, n), digits(r, n), digits(r, n)),
            5 => format!("\"{}\"", r.pick(&["a", "\\n", "\\u00e4", "\u{1f600}", "\\ud83d\\ude00", "\\ud800"]).repeat(n)),
            6 => "x".repeat(n),
            7 => format!("{}1", r.pick(&[" ", "\n", "\t"]).repeat(n)),
            8 => format!("/{}", "/".repeat(n)),
            _ => format!("{}{}", "[".repeat(n), "]".repeat(n)),
        };
        let flags = r.below(4) as u32;
        let want = base(&token, flags)?;
        let probe = gen_text(&mut c.rng);
        let pw = base(&probe, flags)?;
        let mut t = Tokenizer::with_flags(flags);
        let mut rec = Rec::default();
        let _ = feed(&mut c.rng, &mut t, &mut rec, &token);
        let _ = t.push(&mut rec, None);
        ensure!(rec.out == want, "pieces vs. whole of a token of {} bytes: {}...", token.len(), token.chars().take(20).collect::<String>());
        match c.rng.below(3) {
            0 => {
                // Stop at the last report.
                let k = want.len().saturating_sub(1);
                let mut rec = Rec { out: vec![], stop: Some(k) };
                let res = t.parse_str(&mut rec, &token);
                same!(res.is_break(), !want.is_empty(), "stop in a token of {} bytes", token.len());
            },
            1 => {
                let mut rec = Rec::default();
                let _ = feed(&mut c.rng, &mut t, &mut rec, &token);
                t.reset();
            },
            _ => (),
        }
        same!(t.status(), Status::Done, "status after a token of {} bytes", token.len());
        let mut rec = Rec::default();
        let _ = t.parse_str(&mut rec, &probe);
        same!(rec.out, pw, "{probe:?} after a token of {} bytes", token.len());
        c.count("long_bytes", token.len() as u64);
        c.observe(&(kinds(&want).len(), token.len(), flags));
        Ok(())
    });
    // Status after each character: busy iff ending here would still report
    // something.
    cx.section("status", (25_000, 400_000, 0), |c| {
        let text = gen_text(&mut c.rng);
        let flags = c.rng.below(4) as u32;
        let mut t = Tokenizer::with_flags(flags);
        let mut rec = Rec::default();
        for (i, ch) in text.chars().enumerate() {
            let s = t.push(&mut rec, Some(ch));
            same!(s, ControlFlow::Continue(t.status()), "returned status at {i} of {text:?}");
            let mut tail = Rec::default();
            let _ = t.clone().push(&mut tail, None);
            same!(t.status() == Status::Busy, !tail.out.is_empty(), "status after character {i} of {text:?}");
            c.evals(1);
        }
        c.observe(&kinds(&rec.out));
        Ok(())
    });
    // Exhaustive two-way splits and stop positions.
    cx.section("stops", (40_000, 700_000, 0), |c| {
        let text: String = gen_text(&mut c.rng).chars().take(60).collect();
        let flags = c.rng.below(4) as u32;
        let want = base(&text, flags)?;
        let probe = gen_lexeme(&mut c.rng, false);
        let pw = base(&probe, flags)?;
        let ch: Vec<char> = text.chars().collect();
        for k in 0..want.len() {
            let mut t = Tokenizer::with_flags(flags);
            let mut rec = Rec { out: vec![], stop: Some(k) };
            match k % 3 {
                0 => same!(t.parse_str(&mut rec, &text), ControlFlow::Break(STOP + k as u32), "stop {k} of {text:?}"),
                1 => {
                    let mut r = t.push_str(&mut rec, &text);
                    if r.is_continue() {
                        r = t.push(&mut rec, None);
                    }
                    same!(r, ControlFlow::Break(STOP + k as u32), "stop {k} of {text:?}");
                },
                _ => {
                    let mut r = ControlFlow::Continue(Status::Done);
                    for x in ch.iter().map(|x| Some(*x)).chain([None]) {
                        r = t.push(&mut rec, x);
                        if r.is_break() {
                            break;
                        }
                    }
                    same!(r, ControlFlow::Break(STOP + k as u32), "stop {k} of {text:?}");
                },
            }
            same!(rec.out[..], want[..=k], "reports up to stop {k} of {text:?}");
            same!(t.status(), Status::Done, "status after stop {k} of {text:?}");
            let mut rec = Rec::default();
            let _ = t.parse_str(&mut rec, &probe);
            same!(rec.out, pw, "tokenizer reused after stop {k} of {text:?}");
        }
        for k in 0..=ch.len() {
            let (a, b): (String, String) = (ch[..k].iter().collect(), ch[k..].iter().collect());
            let mut t = Tokenizer::with_flags(flags);
            let mut rec = Rec::default();
            let _ = t.push_str(&mut rec, &a);
            let _ = t.parse_str(&mut rec, &b);
            same!(rec.out, want, "split at {k} of {text:?}");
            // Reset in the middle forgets everything unreported.
            let mut rec = Rec::default();
            let _ = t.push_str(&mut rec, &a);
            t.reset();
            same!(t.status(), Status::Done, "status after reset at {k} of {text:?}");
            let mut rec = Rec::default();
            let _ = t.parse_str(&mut rec, &probe);
            same!(rec.out, pw, "reset at {k} of {text:?}");
        }
        c.evals((want.len() + 2 * ch.len()) as u64);
        c.count("stops", want.len() as u64);
        c.observe(&(kinds(&want), 1));
        Ok(())
    });
}

fn main() {
    harness::main(
        "C06",
        "A case is one text with random pieces, reuse history, and all stop and split positions; distinct = distinct sequence of token and error kinds.",
        run,
    );
}
