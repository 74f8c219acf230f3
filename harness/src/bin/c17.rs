//! Walking a D-Bus signature.

use harness::sigmodel::*;
use harness::*;
use osi::mown::Mown;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;
use tmp::fmt::dbus::element::*;
use tmp::fmt::dbus::{Cursor, Element, Sig};

/// Class of an element on its own.
fn element(c: &mut Case) -> R {
    let (code, da, ds, ga, gs) = TABLE[c.idx as usize % TABLE.len()];
    let e = Element::from_code(code).ok_or("missing element")?;
    let ch = code as char;
    same!(e.code(), code, "code");
    same!(e.char(), ch, "character");
    same!(e.str(), ch.to_string(), "text");
    same!(e.dvar_alignment_exp(), da, "D-Bus alignment of {ch}");
    same!(e.gvar_alignment_exp(), ga, "GVariant alignment of {ch}");
    same!(e.dvar_size(), ds, "D-Bus size of {ch}");
    same!(e.gvar_size(), gs, "GVariant size of {ch}");
    let pair = match code { b'(' => b")", b')' => b"(", b'{' => b"}", b'}' => b"{", _ => &b""[..] };
    same!(e.pair().map(|v| v.code()), pair.first().copied(), "pair of {ch}");
    let flags = [
        ("prefix", FLAG_PREFIX, !b")}".contains(&code)),
        ("open", FLAG_OPEN, b"am({".contains(&code)),
        ("close", FLAG_CLOSE, b")}".contains(&code)),
        ("basic", FLAG_BASIC, BASIC.contains(&code)),
        ("dynamic", FLAG_DYNAMIC, b"sogvam".contains(&code)),
        ("handle", FLAG_HANDLE, code == b'h'),
    ];
    for (n, f, w) in flags {
        same!(e.all(f), w, "{n} of {ch}");
        same!(e.any(f), w, "any {n} of {ch}");
    }
    for (o, ..) in TABLE {
        let x = Element::from_code(*o).unwrap();
        same!(x == e, *o == code, "equality of {ch} and {}", *o as char);
        same!(x.id() == e.id(), *o == code, "id of {ch} and {}", *o as char);
    }
    ensure!(e.id() != 0, "id of {ch}");
    same!(unsafe { Element::from_id(e.id()) }, e, "element by id of {ch}");
    c.observe(&code);
    Ok(())
}

/// The tree of the sub-signature at `i`, as if parsed on its own.
fn check_all<O: std::borrow::Borrow<Sig>>(s: &[u8], t: &[Node], c: &Cursor<'_, O>) -> R {
    for i in 0..s.len() + 2 {
        let n = t.get(i);
        let ctx = || format!("element {i} of {}", show(s));
        same!(c.element_at(i).map(|v| v.code()), n.map(|v| v.code), "{}", ctx());
        same!(c.position_at(i), n.map(|v| v.position), "position of {}", ctx());
        same!(c.length_at(i), n.map(|v| v.length), "length of {}", ctx());
        let sub = n.filter(|v| !b")}".contains(&v.code)).map(|v| &s[i..i + v.length]);
        match (c.sig_at(i), sub) {
            (None, None) => (),
            (Some(g), Some(w)) => ensure!(g.len() == w.len() && g.into_iter().map(|e| e.code()).eq(w.iter().copied()), "sub-signature of {} is {g}", ctx()),
            (g, w) => return Err(format!("sub-signature of {} is {:?} instead of {:?}", ctx(), g.map(|v| v.to_string()), w.map(show))),
        }
    }
    Ok(())
}

fn idx_step(t: &[Node], i: usize) -> Option<usize> {
    let n = t.get(i)?;
    match n.up {
        None => Some(i + n.length),
        Some(u) if b"am".contains(&t[u].code) => None,
        _ if b")}".contains(&n.code) => None,
        _ => Some(i + n.length),
    }
}
fn idx_down(t: &[Node], i: usize) -> Option<usize> { t.get(i).filter(|n| b"am({".contains(&n.code)).map(|_| i + 1) }
fn idx_up(t: &[Node], i: usize) -> Option<usize> { t.get(i).and_then(|n| n.up) }

fn here<O: std::borrow::Borrow<Sig>>(s: &[u8], t: &[Node], c: &Cursor<'_, O>, i: usize) -> R {
    let n = t.get(i);
    let ctx = || format!("at {i} of {}", show(s));
    same!(c.idx(), i, "index in {}", show(s));
    same!(c.root().len(), s.len(), "root length in {}", show(s));
    same!(c.element().map(|v| v.code()), n.map(|v| v.code), "element {}", ctx());
    same!(c.position(), n.map(|v| v.position), "position {}", ctx());
    same!(c.length(), n.map(|v| v.length), "length {}", ctx());
    same!(c.dvar_alignment_exp(), n.map(|v| v.dalign), "D-Bus alignment {}", ctx());
    same!(c.gvar_alignment_exp(), n.map(|v| v.galign), "GVariant alignment {}", ctx());
    same!(c.idx_next(), (i < s.len()).then_some(i + 1), "next {}", ctx());
    same!(c.idx_prev(), i.checked_sub(1), "previous {}", ctx());
    same!(c.idx_step(), idx_step(t, i), "step {}", ctx());
    same!(c.idx_down(), idx_down(t, i), "down {}", ctx());
    same!(c.idx_up(), idx_up(t, i), "up {}", ctx());
    same!(c.down().map(|v| v.code()), idx_down(t, i).map(|v| s[v]), "element below {}", ctx());
    same!(c.up().map(|v| v.code()), idx_up(t, i).map(|v| s[v]), "element above {}", ctx());
    same!(c.size_hint(), (s.len() - i, Some(s.len() - i)), "remaining {}", ctx());
    same!(c.len(), s.len() - i, "remaining {}", ctx());
    let sub = n.filter(|v| !b")}".contains(&v.code)).map(|v| v.length);
    same!(c.sig().map(|v| v.len()), sub, "sub-signature length {}", ctx());
    Ok(())
}

fn walk<O: std::borrow::Borrow<Sig> + Clone>(r: &mut Rng, s: &[u8], t: &[Node], mut c: Cursor<'_, O>, start: usize, trace: &mut Vec<u8>) -> R {
    let mut i = start.min(s.len());
    for _ in 0..r.range(1, if cfg!(miri) { 6 } else { 40 }) {
        here(s, t, &c, i)?;
        let op = r.below(11);
        trace.push(op as u8);
        match op {
            0 => { c.move_next(); i = (i + 1).min(s.len()) },
            1 => { c.move_prev(); i = i.saturating_sub(1) },
            2 | 3 => { c.move_step(); i = idx_step(t, i).unwrap_or(i) },
            4 | 5 => { c.move_down(); i = idx_down(t, i).unwrap_or(i) },
            6 => { c.move_up(); i = idx_up(t, i).unwrap_or(i) },
            7 => {
                let k = if r.chance(1, 4) { s.len() + r.below(4) } else { r.below(s.len() + 1) };
                let k = if r.chance(1, 20) { usize::MAX } else { k };
                c.move_to(k);
                i = k.min(s.len());
            },
            8 => {
                let k = r.bool().then(|| r.below(s.len() + 1));
                c.maybe_move(k);
                i = k.unwrap_or(i);
            },
            9 => {
                same!(c.next().map(|v| v.code()), s.get(i).copied(), "iteration at {i} of {}", show(s));
                i = (i + 1).min(s.len());
            },
            _ => {
                let d = c.clone();
                c.move_to(0);
                here(s, t, &c, 0)?;
                c = d;
            },
        }
    }
    here(s, t, &c, i)?;
    // The rest of the iteration.
    let rest: Vec<u8> = c.by_ref().map(|v| v.code()).collect();
    ensure!(rest == s[i..], "rest of {} from {i} is {}", show(s), show(&rest));
    here(s, t, &c, s.len())?;
    ensure!(c.next().is_none() && c.next().is_none(), "iteration past the end of {}", show(s));
    Ok(())
}

fn valid(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![];
    let n = gen_len(r, cfg!(miri));
    gen_type(r, n, &mut s);
    s
}

fn tree(c: &mut Case) -> R {
    let s = valid(&mut c.rng);
    let t = parse(&s).map_err(|e| format!("generator made {}: {e:?}", show(&s)))?;
    let v = Sig::new(&s).map_err(|e| format!("{} refused: {e:?}", show(&s)))?;
    let mut trace = vec![];
    if !cfg!(miri) || s.len() < 8 {
        check_all(&s, &t, &v.cursor())?;
    }
    let r = &mut c.rng;
    walk(r, &s, &t, v.cursor(), 0, &mut trace)?;
    let k = r.below(s.len() + 3);
    walk(r, &s, &t, Cursor::<&Sig>::with(Mown::new_borrowed(&v), k), k, &mut trace)?;
    let a: Arc<Sig> = Sig::arc(&s).map_err(|e| format!("{e:?}"))?;
    walk(r, &s, &t, Cursor::<Arc<Sig>>::new_owned(a.clone()), 0, &mut trace)?;
    walk(r, &s, &t, Cursor::<Box<Sig>>::new_owned(v.clone()), 0, &mut trace)?;
    walk(r, &s, &t, Cursor::<Box<Sig>>::new_borrowed(&v), 0, &mut trace)?;
    // Sub-signatures are signatures of their own.
    for _ in 0..if cfg!(miri) { 1 } else { 4 } {
        let i = r.below(s.len());
        let Some(sub) = v.at(i) else { continue };
        let w = &s[i..i + t[i].length];
        let tw = parse(w).map_err(|e| format!("sub-signature {}: {e:?}", show(w)))?;
        // The alignment and length are those of the type on its own.
        if !cfg!(miri) {
            check_all(w, &tw, &sub.cursor())?;
        }
        walk(r, w, &tw, sub.cursor(), 0, &mut trace)?;
        let j = r.below(w.len());
        if let Some(ss) = sub.at(j) {
            let x = &w[j..j + tw[j].length];
            walk(r, x, &parse(x).unwrap(), ss.cursor(), 0, &mut trace)?;
            walk(r, x, &parse(x).unwrap(), ss.clone().cursor(), 0, &mut trace)?;
        }
        let own = Sig::new(w).map_err(|e| format!("{e:?}"))?;
        ensure!(&*own == sub && own.cmp(&sub.clone()).is_eq() && hash(&own) == hash(sub), "sub-signature {} equals its own parse", show(w));
    }
    ensure!(v.at(s.len()).is_none() && v.at(usize::MAX / 8).is_none(), "sub-signature past the end");
    c.count("moves", trace.len() as u64);
    c.observe(&(&s, &trace));
    c.sample(|| show(&s));
    Ok(())
}

/// Elements of deep and wide signatures.
fn large(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if cfg!(miri) {
        r.range(30, 40)
    } else if r.chance(1, 10) {
        *r.pick(&[32_767, 65_534, 65_535, 65_536, 65_538, 131_073]) + r.below(3)
    } else if r.bool() {
        *r.pick(&[126, 252, 253, 254, 255, 256, 257, 258, 510, 511, 512]) + r.below(3)
    } else {
        r.range(100, 5_000)
    };
    let s = gen_large(r, n);
    let t = parse(&s).map_err(|e| format!("generator made {} elements: {e:?}", s.len()))?;
    let v = Sig::new(&s).map_err(|e| format!("{} elements refused: {e:?}", s.len()))?;
    let mut cur = v.cursor();
    let mut trace = vec![];
    for k in 0..if cfg!(miri) { 6 } else { 80 } {
        let i = match k {
            0 => 0,
            1 => s.len() - 1,
            2 => s.len(),
            _ if r.bool() => { let m = s.len().min(9); s.len() - r.range(1, m) },
            _ => r.below(s.len()),
        };
        cur.move_to(i);
        here(&s, &t, &cur, i).map_err(|e| e[..e.len().min(400)].to_string())?;
        let w = t.get(i).filter(|v| !b")}".contains(&v.code)).map(|v| &s[i..i + v.length]);
        ensure!(v.at(i).map(|v| v.into_iter().map(|e| e.code()).collect::<Vec<_>>()).as_deref() == w, "sub-signature of element {i} of {} elements", s.len());
        trace.push(i);
    }
    // Forward over every member of a container.
    let mut i = s.len().min(1);
    cur.move_to(i);
    for _ in 0..300 {
        let Some(j) = idx_step(&t, i) else { break };
        cur.move_step();
        i = j.min(s.len());
        here(&s, &t, &cur, i).map_err(|e| e[..e.len().min(400)].to_string())?;
    }
    c.count("moves", trace.len() as u64);
    c.observe(&("large", s.len(), s[..s.len().min(50)].to_vec(), &trace));
    Ok(())
}

fn hash(v: &Sig) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn compare(c: &mut Case) -> R {
    let a = valid(&mut c.rng);
    let mut b = valid(&mut c.rng);
    if c.rng.chance(1, 2) {
        // A close relative.
        b = a.clone();
        let i = c.rng.below(b.len());
        if BASIC.contains(&b[i]) {
            b[i] = *c.rng.pick(BASIC);
        }
    }
    let (x, y) = (Sig::new(&a).map_err(|e| format!("{} {e:?}", show(&a)))?, Sig::new(&b).map_err(|e| format!("{} {e:?}", show(&b)))?);
    same!(x.cmp(&y), a.cmp(&b), "order of {} and {}", show(&a), show(&b));
    same!(x.partial_cmp(&y), Some(a.cmp(&b)), "order of {} and {}", show(&a), show(&b));
    same!(*x == *y, a == b, "equality of {} and {}", show(&a), show(&b));
    if a == b {
        same!(hash(&x), hash(&y), "hash of {}", show(&a));
    }
    // Representation does not matter: embed both into a long structure.
    let mut l = vec![b'('];
    l.extend_from_slice(&a);
    let ib = l.len();
    l.extend_from_slice(&b);
    l.extend_from_slice(&[b'y'; 32]);
    l.push(b')');
    let l = Sig::new(&l).map_err(|e| format!("{e:?}"))?;
    let (Some(xl), Some(yl)) = (l.at(1), l.at(ib)) else { return Err(format!("sub-signatures of {l}")) };
    ensure!(xl == &*x && &*x == xl && yl == &*y, "equality across representations of {x} and {xl}");
    same!((xl.cmp(&y), (*x).partial_cmp(yl)), (a.cmp(&b), Some(a.cmp(&b))), "order across representations of {} and {}", show(&a), show(&b));
    same!((hash(xl), hash(yl)), (hash(&x), hash(&y)), "hash across representations of {} and {}", show(&a), show(&b));
    c.observe(&("cmp", &a, &b));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.exhaustive("element", TABLE.len() as u64, element);
    cx.section("tree", (60_000, 1_500_000, 10), tree);
    cx.section("large", (500, 10_000, 2), large);
    cx.section("compare", (60_000, 1_500_000, 4), compare);
}

fn main() {
    harness::main(
        "C17",
        "A case is one valid signature with all its elements inspected and random cursor walks over it, its copies and its sub-signatures, or one pair of signatures compared; distinct = distinct (signature, movement sequence) or pairs.",
        run,
    );
}
