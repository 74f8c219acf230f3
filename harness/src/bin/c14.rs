//! String helpers: natural order and symbols.

use harness::*;
use osi::str::{cmp_natural, some, symbolize};
use std::cmp::Ordering;

const PIECES: &[&str] = &[
    "", "a", "b", "ab", "A", "-", "_", ".", " ", "\u{e4}", "\u{10ffff}", "\0", "z", "/", ":",
    "0", "1", "5", "9", "00", "01", "007", "10", "11", "99", "100", "255",
    "18446744073709551615", "18446744073709551616", "018446744073709551615", "30000000000000000000", "9999999999999999999", "00000000000000000000000005",
];
/// Numeric, but not ASCII digits.
const NUMERIC: &[&str] = &["\u{663}", "\u{bd}", "\u{2167}", "\u{ff15}", "\u{4e00}", "\u{b2}"];

fn text(r: &mut Rng, odd: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        if odd && r.chance(1, 3) {
            s.push_str(r.pick(NUMERIC));
        } else {
            s.push_str(r.pick(PIECES));
        }
    }
    s
}

/// Split into (text, digits) pairs.
fn tokens(s: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut it = s.chars().peekable();
    while it.peek().is_some() {
        let (mut a, mut b) = (String::new(), String::new());
        while let Some(c) = it.next_if(|c| !c.is_ascii_digit()) {
            a.push(c);
        }
        while let Some(c) = it.next_if(|c| c.is_ascii_digit()) {
            b.push(c);
        }
        v.push((a, b));
    }
    v
}

/// Numeric value comparison of digit runs of any length.
fn value(a: &str, b: &str) -> Ordering {
    let (x, y) = (a.trim_start_matches('0'), b.trim_start_matches('0'));
    x.len().cmp(&y.len()).then_with(|| x.cmp(y))
}

/// Order of strings whose only numeric characters are ASCII digits.
fn model(a: &str, b: &str) -> Ordering {
    let (x, y) = (tokens(a), tokens(b));
    let e = (String::new(), String::new());
    for i in 0..x.len().max(y.len()) {
        let (p, q) = (x.get(i).unwrap_or(&e), y.get(i).unwrap_or(&e));
        let o = p.0.cmp(&q.0).then_with(|| value(&p.1, &q.1)).then_with(|| p.1.cmp(&q.1));
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}

fn laws(c: &mut Case, v: &[String]) -> R {
    for a in v {
        same!(cmp_natural(a, a), Ordering::Equal, "{a:?} against itself");
        for b in v {
            let o = cmp_natural(a, b);
            same!(o == Ordering::Equal, a == b, "equality of {a:?} and {b:?}");
            same!(cmp_natural(b, a), o.reverse(), "reverse of {a:?} and {b:?}");
            for d in v {
                if o.is_lt() && cmp_natural(b, d).is_lt() {
                    ensure!(cmp_natural(a, d).is_lt(), "not transitive: {a:?} < {b:?} < {d:?}, but {a:?} vs {d:?} is {:?}", cmp_natural(a, d));
                    c.count("transitive triples", 1);
                }
                c.evals(1);
            }
        }
    }
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("order", (20_000, 800_000, 0), |c| {
        let odd = c.rng.chance(1, 4);
        let v: Vec<String> = (0..6).map(|_| text(&mut c.rng, odd)).collect();
        laws(c, &v)?;
        if !odd {
            for a in &v {
                for b in &v {
                    same!(cmp_natural(a, b), model(a, b), "natural order of {a:?} and {b:?}");
                }
            }
        }
        c.observe(&v);
        c.sample(|| format!("{v:?}"));
        Ok(())
    });
    // Numbers up to the width of the machine integers behave as integers.
    cx.section("numbers", (60_000, 2_000_000, 0), |c| {
        let (a, b) = (c.rng.edge64() as u128 * (1 + c.rng.below(1000) as u128), c.rng.edge64() as u128);
        let p = text(&mut c.rng, false);
        let p = p.trim_end_matches(|c: char| c.is_numeric());
        let t = *c.rng.pick(&["", "x", ".5", "-"]);
        let (x, y) = (format!("{p}{a}{t}"), format!("{p}{b}{t}"));
        same!(cmp_natural(&x, &y), a.cmp(&b), "numeric order of {x:?} and {y:?}");
        // Differences in value decide over whatever follows.
        let (x, y) = (format!("{p}{}{a}z", "0".repeat(c.rng.below(4))), format!("{p}{b}a"));
        if a != b {
            same!(cmp_natural(&x, &y), a.cmp(&b), "numeric order of {x:?} and {y:?}");
        }
        c.observe(&(a, b));
        Ok(())
    });
    // Long strings: digit runs, zeros and text that differ late.
    cx.section("long", (900, 60_000, 0), |c| {
        let r = &mut c.rng;
        let n = *r.pick(&[19usize, 20, 21, 31, 32, 38, 39, 40, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 4097, 65_537]);
        let unit = *r.pick(&["1", "0", "9", "a", "\u{e4}", "a1", "0a", "18446744073709551616", "x9"]);
        let common = unit.repeat(n / unit.len() + 1);
        let lead = *r.pick(&["", "0", "000", "f", "f0", "5"]);
        let v: Vec<String> = (0..4).map(|_| {
            let z = "0".repeat(*r.pick(&[0, 0, 0, 1, 2, 300, 5000]));
            format!("{lead}{z}{common}{}", r.pick(&["", "0", "1", "2", "10", "a", "b", "01", "a0", "a00", "a1"]))
        }).collect();
        for a in &v {
            for b in &v {
                let o = cmp_natural(a, b);
                let cut = |s: &str| format!("{}..({} bytes)..{}", &s[..s.len().min(6)], s.len(), &s[s.len().saturating_sub(6)..]);
                let cut = |s: &str| if s.is_ascii() { cut(s) } else { format!("{} bytes", s.len()) };
                same!(o, model(a, b), "natural order of {} and {}", cut(a), cut(b));
                same!(cmp_natural(b, a), o.reverse(), "reverse of {} and {}", cut(a), cut(b));
            }
        }
        // Two values of the same number of digits.
        let d = |r: &mut Rng| -> String { (0..n.min(3000)).map(|i| (b'0' + r.below(if i == 0 { 9 } else { 10 }) as u8 + (i == 0) as u8) as char).collect() };
        let (a, b) = (d(r), d(r));
        same!(cmp_natural(&a, &b), a.cmp(&b), "numbers of {n} digits");
        let mut e = a.clone().into_bytes();
        let k = e.len() - 1 - r.below(e.len().min(3));
        e[k] = if e[k] == b'9' { b'3' } else { e[k] + 1 };
        let e = String::from_utf8(e).unwrap();
        same!(cmp_natural(&a, &e), a.cmp(&e), "numbers of {n} digits that differ at {k}");
        same!(cmp_natural(&format!("{a}0"), &e), Ordering::Greater, "numbers of {n} and one more digits");
        c.evals(18);
        c.observe(&("long", n, unit, lead));
        Ok(())
    });
    // Text without digits is in plain text order.
    cx.section("text", (30_000, 500_000, 0), |c| {
        let f = |r: &mut Rng| -> String {
            (0..r.below(8)).map(|_| loop {
                let ch = if r.bool() { *r.pick(&['a', 'b', '-', '/', ':', '\u{e4}']) } else { char::from_u32(r.u32() % 0x110000).unwrap_or('x') };
                if !ch.is_numeric() {
                    break ch;
                }
            }).collect()
        };
        let (a, b) = (f(&mut c.rng), f(&mut c.rng));
        same!(cmp_natural(&a, &b), a.cmp(&b), "text order of {a:?} and {b:?}");
        c.observe(&(a, b));
        Ok(())
    });
    // Sorting is independent of the initial order.
    cx.section("sort", (3_000, 60_000, 0), |c| {
        let odd = c.rng.bool();
        let mut v: Vec<String> = (0..20).map(|_| text(&mut c.rng, odd)).collect();
        let mut w = v.clone();
        c.rng.shuffle(&mut w);
        v.sort_by(|a, b| cmp_natural(a, b));
        w.sort_by(|a, b| cmp_natural(a, b));
        same!(v, w, "sorted lists");
        ensure!(v.windows(2).all(|p| cmp_natural(&p[0], &p[1]).is_le()), "sorted list is out of order: {v:?}");
        c.observe(&v);
        Ok(())
    });
    let sym = |s: &str| -> R {
        let o = symbolize(s);
        ensure!(!o.is_empty(), "symbol of {s:?} is empty");
        ensure!(o.chars().all(|c| c.is_alphanumeric() || c == '_'), "symbol {o:?} of {s:?}");
        ensure!(!o.starts_with(char::is_numeric), "symbol {o:?} of {s:?} starts with a digit");
        same!(symbolize(&o), o, "symbolizing the symbol of {s:?} again");
        let good = !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_') && !s.starts_with(char::is_numeric);
        if good {
            same!(o, s, "valid symbol");
        }
        let mut want: String = s.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        if want.is_empty() || want.starts_with(char::is_numeric) {
            want.insert(0, '_');
        }
        same!(o, want, "symbol of {s:?}");
        same!(some(s), if s.is_empty() { None } else { Some(s) }, "optional of {s:?}");
        Ok(())
    };
    cx.section("symbols", (60_000, 2_000_000, 0), |c| {
        let mut s = text(&mut c.rng, true);
        for _ in 0..c.rng.below(4) {
            if let Some(ch) = char::from_u32(c.rng.u32() % 0x110000) {
                s.push(ch);
            }
        }
        if c.idx % 500 == 3 {
            s = s.repeat(*c.rng.pick(&[63, 64, 100, 255, 256, 257, 5000]));
        }
        sym(&s)?;
        c.observe(&s);
        Ok(())
    });
    // Each character on its own, first, and later.
    cx.exhaustive("chars", 0x110, |c| {
        for v in c.idx << 12..(c.idx + 1) << 12 {
            if let Some(ch) = char::from_u32(v as u32) {
                sym(&ch.to_string())?;
                sym(&format!("a{ch}"))?;
                sym(&format!("{ch}1"))?;
                c.evals(3);
            }
        }
        Ok(())
    });
}

fn main() {
    harness::main(
        "C14",
        "A case is a set of strings compared pairwise and in triples, or a string turned into a symbol; distinct = distinct strings.",
        run,
    );
}
