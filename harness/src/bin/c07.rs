//! Character-level JSON tokenizer: token and error content.

use harness::charjson::*;
use harness::*;
use osi::json::token::{Status, Token, Tokenizer};
use std::ops::ControlFlow;

fn check(c: &mut Case, text: &str, flags: u32) -> Result<Vec<Tk>, String> {
    let mut t = if flags == 0 && text.len() % 2 == 0 { Tokenizer::new() } else { Tokenizer::with_flags(flags) };
    let mut r = Rec::default();
    let s = t.parse_str(&mut r, text);
    same!(s, ControlFlow::Continue(Status::Done), "status for {text:?}");
    let want = lex(text, flags);
    same!(r.out, want, "tokens of {text:?} with flags {flags}");
    c.count("tokens", want.len() as u64);
    // Error-free texts are lossless.
    if want.iter().all(|t| matches!(t, Tk::T(_))) {
        let mut back = String::new();
        for t in &r.out {
            match t {
                Tk::T(Token::Colon) => back.push(':'),
                Tk::T(Token::Comma) => back.push(','),
                Tk::T(Token::ArrayOpen) => back.push('['),
                Tk::T(Token::ArrayClose) => back.push(']'),
                Tk::T(Token::ObjectOpen) => back.push('{'),
                Tk::T(Token::ObjectClose) => back.push('}'),
                Tk::T(Token::Null) => back.push_str("null"),
                Tk::T(Token::False) => back.push_str("false"),
                Tk::T(Token::True) => back.push_str("true"),
                Tk::T(Token::Whitespace { raw } | Token::Number { raw, .. }) => back.push_str(raw),
                Tk::T(Token::String { raw, .. }) => {
                    back.push('"');
                    back.push_str(raw);
                    back.push('"');
                },
                Tk::E(_) => unreachable!(),
            }
        }
        same!(back, text, "raw parts of an error-free text");
        c.count("error_free", 1);
    }
    Ok(want)
}

fn run(cx: &mut Ctx) {
    cx.section("random", (250_000, 5_000_000, 0), |c| {
        let text = gen_text(&mut c.rng);
        let flags = c.rng.below(4) as u32;
        let w = check(c, &text, flags)?;
        c.observe(&(kinds(&w), flags));
        c.sample(|| format!("{text:?} -> {w:?}"));
        Ok(())
    });
    // All texts up to a length over the hostile alphabet.
    let k = ALPHA.len() as u64;
    for (name, len) in [("all0-3", 3u32), ("all4", 4), ("all5", 5)] {
        if len == 5 && !cx.thorough() {
            continue;
        }
        let blk = k;
        let total = if len == 3 { 1 } else { k.pow(len) / blk };
        cx.exhaustive(name, total, |c| {
            if len == 3 {
                for l in 0..=3 {
                    for n in 0..k.pow(l) {
                        for flags in 0..4 {
                            check(c, &nth_text(n, l), flags)?;
                            c.evals(1);
                        }
                    }
                }
            } else {
                for n in c.idx * blk..(c.idx + 1) * blk {
                    let w = check(c, &nth_text(n, len), (n % 4) as u32)?;
                    c.observe(&kinds(&w));
                    c.evals(1);
                }
            }
            Ok(())
        });
    }
    // All strings built from up to four escape fragments.
    let frags: &[&str] = &["\\ud8", "\\udc", "00", "\\u", "\\", "u", "d", "0", "\"", "a", "\u{1f}", "\\n"];
    let f = frags.len() as u64;
    let depth = if cx.thorough() { 6 } else { 5 };
    cx.exhaustive("escapes", f.pow(depth) / f, |c| {
        for n in c.idx * f..(c.idx + 1) * f {
            let mut s = String::from("\"");
            let mut x = n;
            for _ in 0..depth {
                s.push_str(frags[(x % f) as usize]);
                x /= f;
            }
            let w = check(c, &s, 0)?;
            c.evals(1);
            c.observe(&kinds(&w));
        }
        Ok(())
    });
    // Every character in every state, and what follows.
    cx.exhaustive("states", (PREFIXES.len() * SUFFIXES.len()) as u64, |c| {
        let (p, s) = (PREFIXES[c.idx as usize / SUFFIXES.len()], SUFFIXES[c.idx as usize % SUFFIXES.len()]);
        for ch in (0u8..0x80).map(char::from).chain(WIDE.iter().copied()) {
            for flags in 0..4 {
                let w = check(c, &format!("{p}{ch}{s}"), flags)?;
                c.evals(1);
                c.observe(&(kinds(&w), flags));
            }
        }
        Ok(())
    });
    // Each escape value on its own, and all lead/trail pairs on a grid.
    cx.exhaustive("codepoints", 256, |c| {
        for lo in 0..256u32 {
            let v = (c.idx as u32) << 8 | lo;
            check(c, &format!("\"\\u{v:04x}\\u{v:04X}x\""), 0)?;
            let w = 0xdc00 | (v.wrapping_mul(0x9e37) & 0x3ff);
            check(c, &format!("\"\\u{:04x}\\u{w:04x}\"", 0xd800 | (v & 0x3ff)), 0)?;
            // Raw characters of the code space, inside and outside of strings.
            for ch in (0..17).filter_map(|p| char::from_u32(p << 16 | v)) {
                check(c, &format!("\"{ch}\"{ch}"), 0)?;
                c.evals(1);
            }
        }
        c.observe(&("cp", c.idx));
        Ok(())
    });
    // Long tokens, beyond internal buffer limits.
    cx.section("long", (40, 300, 0), |c| {
        let n = *c.rng.pick(&[4095usize, 4096, 4097, 9000, 70000]);
        let text = match c.rng.below(5) {
            0 => format!("\"{}\" 1", "\\u00e4".repeat(n)),
            1 => format!("{}.{}e{} x", "1".repeat(n), "2".repeat(n), "3".repeat(n)),
            2 => format!("[{}]", " ".repeat(n)),
            3 => format!("{} #{}\n", "k".repeat(n), "c".repeat(n)),
            _ => "[".repeat(n),
        };
        let w = check(c, &text, 0)?;
        c.observe(&(kinds(&w).len(), n, text.as_bytes()[0]));
        Ok(())
    });
}

fn main() {
    harness::main(
        "C07",
        "A case is one text tokenized by the library and by an independent lexer; distinct = distinct (sequence of token and error kinds, leniency flags).",
        run,
    );
}
