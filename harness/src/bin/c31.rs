//! Type-level helpers as seen at run time: conditional blocks, brands, markers
//! and lifetime overrides.

#![allow(unexpected_cfgs)]

use harness::*;
use osi::brand::{unique, Id};
use osi::cfg::cond;
use osi::marker::{PhantomInvariant, PhantomInvariantLifetime};
use osi::never::Never;
use osi::polonius::coerce_unsafe;
use osi::test::{ContravariantType, CovariantType, InvariantType, SubType, SuperType};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// What a list of conditional blocks did.
#[allow(dead_code)]
struct Row {
    conds: &'static [bool],
    names: &'static [&'static str],
    other: bool,
    empty: Option<usize>,
    log: Vec<usize>,
}

#[allow(unused_mut, unused_variables, clippy::all)]
mod cases {
    use super::{cond, Row};
    include!("../condcases.rs");
}

/// Exactly the block of the first condition that holds is run.
fn blocks(c: &mut Case) -> R {
    let r = cases::ROWS[c.idx as usize % cases::ROWS.len()]();
    let at = r.conds.iter().position(|v| *v).or(r.other.then_some(r.conds.len()));
    let want: Vec<usize> = at.into_iter().filter(|v| r.empty != Some(*v)).collect();
    same!(r.log, want, "blocks run for {:?}, other: {}", r.names, r.other);
    c.observe(&(r.names, r.other, r.empty));
    c.sample(|| format!("{:?} other {} ran {:?}", r.names, r.other, r.log));
    Ok(())
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}

/// Markers of one type are all equal, and take no space.
fn same_marker<T: Clone + Hash + Ord>(what: &str, a: T, b: T) -> R {
    same!((size_of::<T>(), align_of::<T>()), (0, 1), "layout of {what}");
    same!((size_of::<(T, u8)>(), size_of::<[T; 9]>()), (1, 0), "layout with {what}");
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a.clone()), (&a.clone(), &b)] {
        ensure!(x == y && !(x != y), "equality of {what}");
        same!((x.cmp(y), x.partial_cmp(y)), (Ordering::Equal, Some(Ordering::Equal)), "order of {what}");
        ensure!(x <= y && x >= y && !(x < y) && !(x > y), "comparison of {what}");
        let (mut h, mut k) = (Rec::default(), Rec::default());
        x.hash(&mut h);
        y.hash(&mut k);
        same!(h.0, k.0, "hash of {what}");
    }
    // In different places.
    let v: Vec<(u8, T, u8)> = (0..6u8).map(|i| (i / 4, if i % 2 == 0 { a.clone() } else { b.clone() }, 1 - i % 2)).collect();
    for x in &v {
        for y in &v {
            ensure!(x.1 == y.1, "equality of {what} in different places");
            same!((x.1.cmp(&y.1), x.1.partial_cmp(&y.1)), (Ordering::Equal, Some(Ordering::Equal)), "order of {what} in different places");
            same!((x.cmp(y), x == y), ((x.0, x.2).cmp(&(y.0, y.2)), (x.0, x.2) == (y.0, y.2)), "order of structures with {what}");
        }
    }
    let mut m = std::collections::HashSet::new();
    ensure!(m.insert(a) && !m.insert(b), "set of {what}");
    Ok(())
}

struct Named;

fn markers(c: &mut Case) -> R {
    macro_rules! go { ($($t:ty),*) => { $(
        let (a, b) = (PhantomInvariant::<$t>::new(), PhantomInvariant::<$t>::default());
        same_marker(concat!("marker of ", stringify!($t)), a, b)?;
        let p = a;
        ensure!(p == a, "copy");
        same!((size_of::<CovariantType<$t>>(), align_of::<CovariantType<$t>>()), (0, 1), "covariant marker of {}", stringify!($t));
        same!((size_of::<InvariantType<$t>>(), align_of::<InvariantType<$t>>()), (0, 1), "invariant marker of {}", stringify!($t));
        let _ = (CovariantType::<$t>::new(), CovariantType::<$t>::default(), InvariantType::<$t>::new(), InvariantType::<$t>::default());
        c.observe(stringify!($t));
        c.evals(3);
    )* } }
    go!(u8, u64, u128, String, Named, [u8], str, dyn std::fmt::Debug, Vec<Named>, &'static str, (u8, u64), fn(u8) -> u8, SubType, SuperType, [u128; 7], Option<Box<Named>>);
    macro_rules! con { ($($t:ty),*) => { $(
        same!((size_of::<ContravariantType<$t>>(), align_of::<ContravariantType<$t>>()), (0, 1), "contravariant marker of {}", stringify!($t));
        let _ = (ContravariantType::<$t>::new(), ContravariantType::<$t>::default());
    )* } }
    con!(u8, u64, String, Named, SubType, SuperType);
    same_marker("lifetime marker", PhantomInvariantLifetime::new(), PhantomInvariantLifetime::default())?;
    // Values of an impossible type take no space and leave the other variant.
    same!(size_of::<Never>(), 0, "impossible type");
    let v = c.rng.u32();
    let r: Result<u32, Never> = Ok(v);
    let Ok(w) = r;
    same!(w, v, "only possible variant");
    c.evals(1);
    Ok(())
}

/// Brands nest, hand on the results and only equal their own kind.
fn brands(c: &mut Case) -> R {
    let depth = if cfg!(miri) { c.rng.below(6) } else { c.rng.below(60) };
    let vals: Vec<u64> = (0..=depth).map(|_| c.rng.u64()).collect();
    let mut calls = vec![];
    fn go(vals: &[u64], calls: &mut Vec<usize>) -> Result<Vec<u64>, String> {
        let Some((v, rest)) = vals.split_first() else { return Ok(vec![]) };
        unique(|b| {
            calls.push(rest.len());
            same!((size_of_val(&b), align_of_val(&b)), (0, 1), "layout of a brand");
            ensure!(b == b && b.cmp(&b).is_eq() && b.partial_cmp(&b) == Some(Ordering::Equal), "brand against itself");
            let id: Id<'_> = b.into();
            let other = id;
            same_marker("brand id", id, other)?;
            let mut out = vec![*v];
            out.extend(go(rest, calls)?);
            ensure!(id == other, "brand id after nesting");
            Ok(out)
        })
    }
    let got = go(&vals, &mut calls)?;
    same!(got, vals, "results passed through brands");
    same!(calls, (0..vals.len()).rev().collect::<Vec<_>>(), "invocations");
    // Any result type goes through unchanged, and is dropped once.
    let t = std::rc::Rc::new(vals[0]);
    let u = unique(|_| (t.clone(), vals.len()));
    same!((std::rc::Rc::strong_count(&t), u.1), (2, vals.len()), "shared result");
    ensure!(std::rc::Rc::ptr_eq(&t, &u.0), "shared result is another");
    drop(u);
    same!(std::rc::Rc::strong_count(&t), 1, "references after dropping");
    c.observe(&vals);
    c.evals(depth as u64 + 1);
    Ok(())
}

/// A lifetime override yields the same value.
fn overrides(c: &mut Case) -> R {
    struct Src { at: usize, data: Vec<u32>, tries: usize }
    fn step(s: &mut Src) -> Option<&mut u32> {
        s.tries += 1;
        let i = s.at;
        s.at += 1;
        let n = s.data.len();
        let v = &mut s.data[i % n];
        if *v % 7 == 0 || s.tries > 3 * n { Some(v) } else { *v = v.wrapping_add(1); None }
    }
    fn find<'a>(s: &'a mut Src) -> &'a mut u32 {
        loop {
            let Some(v) = step(s) else { continue };
            return unsafe { coerce_unsafe!(&'_ mut u32, &'a mut u32, v) };
        }
    }
    let n = c.rng.range(1, if cfg!(miri) { 4 } else { 30 });
    let data: Vec<u32> = (0..n).map(|_| c.rng.u32()).collect();
    // The same by index.
    let mut m = data.clone();
    let (mut i, mut tries) = (0, 0);
    let at = loop {
        tries += 1;
        let k = i % n;
        i += 1;
        if m[k] % 7 == 0 || tries > 3 * n { break k; }
        m[k] = m[k].wrapping_add(1);
    };
    let mut s = Src { at: 0, data, tries: 0 };
    let base = s.data.as_ptr() as usize;
    let v = find(&mut s);
    same!(v as *const u32 as usize - base, at * 4, "element found");
    *v ^= 0x5555;
    m[at] ^= 0x5555;
    same!(s.data, m, "list after the override");
    same!(s.tries, tries, "steps");
    // Moving ownership and text through it.
    let text = format!("{}", c.rng.u64());
    let b: Box<str> = text.clone().into();
    let p = b.as_ptr() as usize;
    let b = unsafe { coerce_unsafe!(Box<str>, Box<str>, b) };
    same!((b.as_ptr() as usize, &*b), (p, &*text), "moved box");
    let r: &str = unsafe { coerce_unsafe!(&'_ str, &'_ str, &*b) };
    same!((r.as_ptr() as usize, r.len()), (p, text.len()), "text reference");
    let a = std::rc::Rc::new(text);
    let b = unsafe { coerce_unsafe!(std::rc::Rc<String>, std::rc::Rc<String>, std::rc::Rc::clone(&a)) };
    same!((std::rc::Rc::strong_count(&a), std::rc::Rc::ptr_eq(&a, &b)), (2, true), "moved reference");
    drop(b);
    same!(std::rc::Rc::strong_count(&a), 1, "references left");
    let mut q = c.rng.u16();
    let w = q;
    let q: &u16 = unsafe { coerce_unsafe!(&mut u16, &u16, &mut q) };
    same!(*q, w, "shared from exclusive");
    c.observe(&(s.data.len(), at, tries, w));
    c.evals(3);
    Ok(())
}

fn run(cx: &mut Ctx) {
    let n = cases::ROWS.len() as u64;
    cx.section("blocks", (n.min(999), n, n.min(60)), blocks);
    cx.section("markers", (200, 2_000, 2), markers);
    cx.section("brands", (20_000, 400_000, 6), brands);
    cx.section("overrides", (40_000, 800_000, 8), overrides);
}

fn main() {
    harness::main(
        "C31",
        "A case is one list of conditional blocks, one set of marker types, one nest of brands, or one search through a lifetime override; distinct = distinct condition lists, types, values passed and positions found.",
        run,
    );
}
